"""Random valid calls of the functions of the package."""
import numpy as np

from sporco import (linalg, fft, array, signal, metric, interp, cnvrep, prox,
                    util)


def call(rng, dt=np.float64):
    """-> (name, function, args, kwargs)"""
    r = rng.standard_normal
    nd = int(rng.integers(1, 4))
    shp = tuple(int(v) for v in rng.integers(2, 6, nd))
    x = r(shp).astype(dt)
    y = r(shp).astype(dt)
    ax = tuple(int(v) for v in sorted(rng.permutation(nd)[
        :int(rng.integers(1, nd + 1))]))
    axn = [None, ax][rng.integers(2)]
    a1 = int(rng.integers(nd))
    al = float(rng.uniform(.05, 1))
    img = rng.random((12, 11)).astype(dt)
    img2 = rng.random((12, 11)).astype(dt)
    N, M, K = (int(v) for v in rng.integers(2, 6, 3))
    ah = (r((4, 3, 1, 1, M)) + 1j * r((4, 3, 1, 1, M)))
    b = (r((4, 3, 1, K, M)) + 1j * r((4, 3, 1, K, M)))
    A = r((N, M)).astype(dt)
    D = r((3, 2, 1, 1, M)).astype(dt)
    T = [
        ('prox_l1', prox.prox_l1, (x, al), {}),
        ('prox_l0', prox.prox_l0, (x, al), {}),
        ('prox_l2', prox.prox_l2, (x, al, axn), {}),
        ('prox_dl1l2', prox.prox_dl1l2, (x, al), {'axis': [None, a1][
            rng.integers(2)]}),
        ('prox_sl1l2', prox.prox_sl1l2, (x, al, .3), {'axis': axn}),
        ('prox_nuclear', prox.prox_nuclear, (A, al), {}),
        ('proj_l1', prox.proj_l1, (x, al), {'axis': axn}),
        ('proj_l2', prox.proj_l2, (x, al), {'axis': axn}),
        ('norm_l0', prox.norm_l0, (x, axn), {}),
        ('norm_l1', prox.norm_l1, (x, axn), {}),
        ('norm_l2', prox.norm_l2, (x, axn), {}),
        ('norm_2l2', prox.norm_2l2, (x, axn), {}),
        ('norm_l21', prox.norm_l21, (x, a1), {}),
        ('norm_dl1l2', prox.norm_dl1l2, (x, .5, axn), {}),
        ('inner', linalg.inner, (x, y, a1), {}),
        ('dot', linalg.dot, (r((2, N, K)), r((2, K, M))), {'axis': -2}),
        ('solvedbi_sm', linalg.solvedbi_sm, (ah, al, b), {}),
        ('solvedbi_sm_c', linalg.solvedbi_sm_c, (ah, np.conj(ah), al), {}),
        ('solvedbd_sm', linalg.solvedbd_sm, (ah, rng.uniform(
            .5, 2, (1, 1, 1, 1, M)), b), {}),
        ('solvemdbi_ism', linalg.solvemdbi_ism, (
            r((4, 3, 2, K, M)) + 0j, al + .5, r((4, 3, 2, 1, M)) + 0j, 4, 3),
         {}),
        ('solvemdbi_rsm', linalg.solvemdbi_rsm, (
            r((4, 3, 2, K, M)) + 0j, al + .5, r((4, 3, 2, 1, M)) + 0j, 3),
         {}),
        ('lu_factor', linalg.lu_factor, (A, al), {}),
        ('cho_factor', linalg.cho_factor, (A, al), {}),
        ('block_circulant', linalg.block_circulant, (list(
            r((3, 2, 2))),), {}),
        ('nkp', linalg.nkp, (r((6, 4)), (2, 2), (3, 2)), {}),
        ('pca', linalg.pca, (r((5, 7)),), {'centre': True}),
        ('rrs', linalg.rrs, (x, y), {}),
        ('fftn', fft.fftn, (x, None, ax), {}),
        ('rfftn', fft.rfftn, (x, None, ax), {}),
        ('ifftn', fft.ifftn, (x + 1j * y, None, ax), {}),
        ('irfftn', fft.irfftn, (fft.rfftn(x, None, ax), tuple(
            shp[i] for i in ax), ax), {}),
        ('dctii', fft.dctii, (x, ax), {}),
        ('idctii', fft.idctii, (x, ax), {}),
        ('fftconv', fft.fftconv, (x, y, ax), {}),
        ('zdivide', array.zdivide, (x, np.round(y)), {}),
        ('zpad', array.zpad, (x, (1, 2), a1), {}),
        ('rolling_window', array.rolling_window, (x, (2,) * nd), {}),
        ('extract_blocks', array.extract_blocks, (img, (3, 4), (2, 3)), {}),
        ('average_blocks', array.average_blocks, (array.extract_blocks(
            img, (3, 4), (1, 1)), img.shape, (1, 1)), {}),
        ('combine_blocks', array.combine_blocks, (array.extract_blocks(
            img, (3, 4), (1, 1)), img.shape, (1, 1)), {}),
        ('subsample', array.subsample_array, (x, (1,) * nd), {}),
        ('split', array.split, (x, a1), {}),
        ('grad', signal.grad, (x, a1, bool(rng.random() < .5)), {}),
        ('gradT', signal.gradT, (r((6, 5)), int(rng.integers(2))), {}),
        ('gradient_filters', signal.gradient_filters, (nd, ax, tuple(
            shp[i] for i in ax), np.dtype(dt)), {}),
        ('tikhonov', signal.tikhonov_filter, (img, al, 3), {}),
        ('lcn', signal.local_contrast_normalise, (img,), {'n': 3}),
        ('gaussian', signal.gaussian, (shp, al + 1), {}),
        ('rgb2gray', signal.rgb2gray, (rng.random((5, 4, 3)),), {}),
        ('mse', metric.mse, (img, img2), {}),
        ('psnr', metric.psnr, (img, img2), {}),
        ('snr', metric.snr, (img, img2), {}),
        ('gmsd', metric.gmsd, (img, img2), {'returnMap': True}),
        ('pamse', metric.pamse, (img, img2), {}),
        ('isnr', metric.isnr, (img, img2, .5 * (img + img2)), {}),
        ('bsnr', metric.bsnr, (img, img2), {}),
        ('lanczos_filters', interp.lanczos_filters, ((5, 5),), {}),
        ('bilinear_demosaic', interp.bilinear_demosaic, (rng.random(
            (8, 10)),), {}),
        ('mae', metric.mae, (img, img2), {}),
        ('tiledict', util.tiledict, (r((3, 2, M)).astype(dt),), {}),
        ('tiledict_sz', util.tiledict, (
            r((3, 2, 3, M)).astype(dt), ((2, 2, 3, M),)), {}),
        ('lstabsdev', interp.lstabsdev, (r((7, 3)), r(7)), {}),
        ('lstmaxdev', interp.lstmaxdev, (r((7, 3)), r(7)), {}),
        ('lanczos_kernel', interp.lanczos_kernel, (x,), {}),
        ('promote16', array.promote16, (x.astype(np.float16), lambda v: v +
                                        1), {}),
        ('atleast_nd', array.atleast_nd, (4, x), {}),
        ('solvemdbi_cg', linalg.solvemdbi_cg, (
            r((4, 3, 2, K, M)) + 0j, al + .5, r((4, 3, 2, 1, M)) + 0j, 4, 3),
         {'tol': 1e-12}),
        ('lu_solve_ATAI', linalg.lu_solve_ATAI, (
            A, al, r((M, 2)), *linalg.lu_factor(A, al)), {}),
        ('cho_solve_ATAI', linalg.cho_solve_ATAI, (
            A, al, r((M, 2)), *linalg.cho_factor(A, al)), {}),
        ('lu_solve_AATI', linalg.lu_solve_AATI, (
            A, al, r((3, N)), *linalg.lu_factor(A, al)), {}),
        ('cho_solve_AATI', linalg.cho_solve_AATI, (
            A, al, r((3, N)), *linalg.cho_factor(A, al)), {}),
        ('fl2norm2', fft.fl2norm2, (x + 1j * y, ax), {}),
        ('rfl2norm2', fft.rfl2norm2, (fft.rfftn(x, None, ax), shp, ax), {}),
        ('cr.stdformD', cnvrep.stdformD, (D, 1, M), {}),
        ('cr.l1Wshape', cnvrep.l1Wshape, (
            r((6, 5)), cnvrep.CSC_ConvRepIndexing(r((3, 2, M)), r(
                (6, 5)))), {}),
        ('cr.mskWshape', cnvrep.mskWshape, (
            r((6, 5)), cnvrep.CSC_ConvRepIndexing(r((3, 2, M)), r(
                (6, 5)))), {}),
        ('cr.zpad', cnvrep.zpad, (D, (6, 5)), {}),
        ('cr.bcrop', cnvrep.bcrop, (r((6, 5, 1, 1, M)), (3, 2, M)), {}),
        ('cr.Pcn', cnvrep.Pcn, (r((6, 5, 1, 1, M)), (3, 2, M), (6, 5)),
         {'zm': bool(rng.random() < .5)}),
        ('cr.getPcn', lambda v, *a, **k: cnvrep.getPcn(*a, **k)(v), (
            r((6, 5, 2, 1, M)), (3, 2, 2, M), (6, 5), 2,
            int(rng.integers(2))), {'zm': bool(rng.random() < .5),
                                    'crp': bool(rng.random() < .5)}),
        ('cr.normalise', cnvrep.normalise, (D,), {}),
        ('cr.zeromean', cnvrep.zeromean, (D, (3, 2, M)), {}),
    ]
    return T[int(rng.integers(len(T)))]


def leaves(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (tuple, list)):
        return [w for u in v for w in leaves(u)]
    if isinstance(v, (int, float, complex, np.generic)):
        return [np.asarray(v)]
    return []
