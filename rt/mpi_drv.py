"""Run inside mpirun: evaluates mpiutil.grid_search on random grids and
records per-rank results and evaluation logs. Arguments: seed, number of
jobs, output file."""
import itertools
import pickle
import sys
import time

import numpy as np


def f_sq(x):
    return (x[0] - 1)**2 + 3 * abs(x[1])


def f_ties(x):
    return float(np.round(np.sin(3 * x[0]) * 4))


def f_tuple(x):
    v = f_sq(x)
    return (v, -v + x[0], x[1])


def f_one(x):
    return (x[0] * x[1],)


def f_nan(x):
    v = f_sq(x)
    return np.nan if v < 1.0 else v


def f_three(x):
    return np.cos(x[0]) + x[1] * x[2]


def f_int(x):
    return int(np.round(3 * x[0])) - 2


def f_f32(x):
    return np.float32(x[0]) * np.float32(1.5) + np.float32(x[1])


def f_list(x):
    return [int(np.round(x[0])), float(x[1])]


FNS = {f.__name__: (f, nd, tup) for f, nd, tup in (
    (f_sq, 2, 0), (f_ties, 1, 0), (f_tuple, 2, 3), (f_one, 2, 1),
    (f_nan, 2, 0), (f_three, 3, 0), (f_int, 1, 0), (f_f32, 2, 0),
    (f_list, 2, 2))}


def jobs(seed, n):
    rng = np.random.default_rng(seed)
    nms = sorted(FNS)
    out = []
    for _ in range(n):
        nm = nms[int(rng.integers(0, len(nms)))]
        grd = tuple(rng.uniform(-3, 3, int(rng.integers(1, 5)))
                    for _ in range(FNS[nm][1]))
        if rng.random() < .3:
            grd = tuple(np.round(v) for v in grd)
        if np.all(np.isnan(np.array([FNS[nm][0](p) for p in
                                     itertools.product(*grd)], float))):
            nm = 'f_sq'
        out.append((nm, grd, bool(rng.random() < .6),
                    bool(rng.random() < .3), float(rng.choice([0, .002]))))
    return out


def main():
    from mpi4py import MPI
    from sporco import mpiutil
    seed, n, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    world = MPI.COMM_WORLD
    rank = world.Get_rank()
    dly = np.random.default_rng([seed, rank])
    recs = []
    for nm, grd, fmin, sub, delay in jobs(seed, n):
        fn = FNS[nm][0]
        log = []

        def wrap(x):
            if delay:
                time.sleep(float(dly.uniform(0, delay)))
            log.append(tuple(float(v) for v in x))
            return fn(x)

        comm = None
        if sub:
            # Reversed rank order in a duplicate communicator
            comm = world.Split(0, -rank)
        # array_like axes
        ga = tuple(v.tolist() if (len(recs) + q) % 3 == 0 else v
                   for q, v in enumerate(grd))
        res = mpiutil.grid_search(wrap, ga, comm=comm, fmin=fmin)
        recs.append((res, log))
    allr = world.gather(recs, root=0)
    if rank == 0:
        with open(out, 'wb') as f:
            pickle.dump(allr, f)


if __name__ == '__main__':
    main()
