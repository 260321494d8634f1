"""Random small instances of every solver class of the package.

spec(rng, name) -> Spec with
   make()    construct a new solver object from the same arrays and options
   arrays    dict name -> array handed to the solver (problem data, weights,
             initial values)
   opt       the options object shared by all objects made by make()
"""
import numpy as np

from sporco.admm import (bpdn, cbpdn, cbpdnin, cbpdntv, ccmod, ccmodmd, cmod,
                         pdcsc, ppp, rpca, spline, tvl1, tvl2, parcbpdn)
from sporco.pgm import (bpdn as pbpdn, cbpdn as pcbpdn, ccmod as pccmod,
                        cmod as pcmod, ppp as pppp, backtrack, momentum,
                        stepsize)
from sporco.dictlrn import (bpdndl, wbpdndl, cbpdndl, cbpdndlmd, onlinecdl,
                            prlcnscdl)
from rt import csc, gen


class Spec:
    """One problem instance; every object made is independent"""

    def __init__(self, name, cls, args, kw, opt, mode='solve'):
        self.name, self.cls, self.args, self.kw = name, cls, args, kw
        self.opt, self.mode = opt, mode
        self.pre = ()
        self.copy = False

    def arrays(self):
        out = {}

        def walk(p, v):
            if isinstance(v, np.ndarray):
                out[p] = v
            elif isinstance(v, dict):
                for k in v:
                    walk(p + '/' + str(k), v[k])
            elif isinstance(v, (list, tuple)):
                for i, w in enumerate(v):
                    walk('%s/%d' % (p, i), w)
        walk('arg', self.args)
        walk('kw', self.kw)
        return out

    def make(self, opt=None):
        o = self.opt if opt is None else opt
        a = self.args
        if self.copy:
            a = tuple(np.array(x) if isinstance(x, np.ndarray) else x
                      for x in a)
        return self.cls(*a, opt=o, **self.kw)

    def step(self, obj):
        """One call that advances the solver"""
        if self.mode == 'online':
            i = obj.__dict__.setdefault('_verif_n', 0)
            obj._verif_n += 1
            return obj.solve(*self.stream[i % len(self.stream)])
        return obj.solve()

    def state(self, obj):
        """Everything a user can observe, as a list of arrays"""
        out = []
        for f in ('X', 'Y', 'U', 'D'):
            v = getattr(obj, f, None)
            if isinstance(v, np.ndarray):
                out.append(v)
        for f in ('getmin', 'getdict', 'getcoef'):
            if hasattr(obj, f):
                try:
                    v = getattr(obj, f)()
                except NotImplementedError:
                    continue
                if isinstance(v, np.ndarray):
                    out.append(v)
        return out

    def vector(self, obj):
        return np.concatenate([np.asarray(v).ravel().astype(complex)
                               for v in self.state(obj)])

    def stats(self, obj):
        """Numerical iteration statistics other than times"""
        it = getattr(obj, 'itstat', None)
        if not it:
            return np.zeros(0)
        f = [i for i, n in enumerate(it[0]._fields) if 'Time' not in n]
        return np.array([[np.nan if s[i] is None else
                          float(np.real(s[i])) for i in f] for s in it])


def gopt(rng):
    """Options understood by all ADMM solvers"""
    o = {'MaxMainIter': int(rng.integers(1, 5)), 'RelStopTol': 0.0,
         'Verbose': False,
         'RelaxParam': float(rng.choice([1.0, 1.8])),
         'rho': float(rng.choice([1.0, 5.0, 0.3]))}
    o['AutoRho'] = {'Enabled': bool(rng.random() < .5), 'Period': 1,
                    'Scaling': 2.0}
    return o


def popt(rng):
    o = {'MaxMainIter': int(rng.integers(1, 5)), 'RelStopTol': 0.0,
         'L': float(rng.choice([50.0, 200.0]))}
    r = rng.random()
    if r < .3:
        o['Backtrack'] = backtrack.BacktrackStandard()
    elif r < .5:
        o['Backtrack'] = backtrack.BacktrackRobust()
    o['Momentum'] = [momentum.MomentumNesterov, momentum.MomentumLinear,
                     momentum.MomentumGenLinear][rng.integers(3)]()
    return o


def sopt(rng, o):
    """Step size policies"""
    r = rng.random()
    if 'Backtrack' not in o:
        if r < .25:
            o['StepSizePolicy'] = stepsize.StepSizePolicyBB()
        elif r < .5:
            o['StepSizePolicy'] = stepsize.StepSizePolicyCauchy()
    return o


def dense(rng, M=None):
    m, n, k = (int(v) for v in rng.integers(2, 9, 3))
    D = rng.standard_normal((m, n))
    D /= np.linalg.norm(D, axis=0)
    return D, rng.standard_normal((m, k)), rng.standard_normal((n, k))


def masked(rng, g):
    """Mask in the internal layout (spatial, channel, signal, filter)"""
    return (rng.random(g.sshape) < .7) * 1.0


def code(rng, g):
    return rng.standard_normal(g.xshape) * (rng.random(g.xshape) < .6)


def _l1w(rng, g, o, dn=2):
    if rng.random() < .3:
        o['L1Weight'] = rng.uniform(.3, 2, (1,) * (g.dimN + 2) + (g.M,))
    return o


def _geo(rng):
    return csc.Geo(rng, np.float64, hi=7, Mmax=3)


def b_bpdn(rng, name):
    D, S, X = dense(rng)
    lm = float(rng.uniform(.05, .5))
    if name == 'pgm.BPDN':
        c = pbpdn.BPDN
        return Spec(name, c, (D, S, lm), {}, c.Options(sopt(rng, popt(rng))))
    if name == 'pgm.WeightedBPDN':
        c = pbpdn.WeightedBPDN
        return Spec(name, c, (D, S, lm, rng.uniform(.2, 1, S.shape)), {},
                    c.Options(popt(rng)))
    c = getattr(bpdn, name[5:])
    a = (D, S, lm)
    if name[5:] in ('BPDNJoint', 'ElasticNet'):
        a += (.1,)
    o = gopt(rng)
    if 'L1Weight' in c.Options() and rng.random() < .4:
        o['L1Weight'] = rng.uniform(.3, 2, X.shape)
    if rng.random() < .3 and 'Y0' in c.Options() and 'Ball' not in name:
        o['Y0'] = X.copy()
    return Spec(name, c, a, {}, c.Options(o))


def b_cbpdn(rng, name):
    n = name.split('.')[1]
    g = _geo(rng)
    lm = float(rng.uniform(.05, .5))
    if name.startswith('pgm'):
        c = getattr(pcbpdn, n)
        a = (g.D, g.S, lm) + ((masked(rng, g),) if 'Mask' in n else ())
        o = popt(rng)
        if n == 'ConvBPDN':
            sopt(rng, o)
        return Spec(name, c, a, g.kw, c.Options(_l1w(rng, g, o)))
    if n.startswith('ConvProd'):
        g = csc.Geo(rng, np.float64, hi=7, Mmax=3, multichan_dict=False,
                    C=int(rng.integers(2, 4)), dimN=int(rng.integers(1, 3)))
        B = rng.standard_normal((g.C, int(rng.integers(1, 4))))
        B /= np.linalg.norm(B, axis=0)
        c = getattr(pdcsc, n)
        kw = dict(dimN=g.dimN, dimK=1 if g.dK else 0)
        a = (g.D, B, g.S, lm)
        if n == 'ConvProdDictBPDNJoint':
            a += (.1,)
        if n == 'ConvProdDictL1L1Grd':
            a += (.1, masked(rng, g))
        if n == 'ConvProdDictL1L1GrdJoint':
            a += (.1,)
        return Spec(name, c, a, kw, c.Options(gopt(rng)))
    a = (g.D, g.S, lm)
    kw = dict(g.kw)
    if n == 'ConvBPDNInhib':
        c = cbpdnin.ConvBPDNInhib
        g = csc.Geo(rng, np.float64, hi=7, Mmax=3, C=1)
        a = (g.D, g.S, np.ones((2, g.M)) * (rng.random((2, g.M)) < .7),
             3, None, lm, .1, .05)
        kw = g.kw
        return Spec(name, c, a, kw, c.Options(gopt(rng)))
    if n in ('ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'ConvBPDNRecTV'):
        c = getattr(cbpdntv, n)
        g = csc.Geo(rng, np.float64, hi=7, Mmax=3, multichan_dict=False)
        a, kw = (g.D, g.S, lm, .05), g.kw
        return Spec(name, c, a, kw, c.Options(gopt(rng)))
    c = getattr(cbpdn, n)
    o = gopt(rng)
    if n in ('ConvBPDNJoint', 'ConvElasticNet', 'ConvBPDNGradReg'):
        a += (.1,)
    if n == 'ConvBPDNProjL1':
        a = (g.D, g.S, float(rng.uniform(.5, 5)))
    elif n == 'ConvMinL1InL2Ball':
        a = (g.D, g.S, float(rng.uniform(.2, 2)))
    elif n == 'ConvBPDNMaskDcpl':
        a += (masked(rng, g),)
        _l1w(rng, g, o)
    elif n == 'ConvL1L1Grd':
        a += (.1, masked(rng, g))
    else:
        _l1w(rng, g, o)
    if rng.random() < .25 and n in ('ConvBPDN', 'ConvElasticNet'):
        o['Y0'] = code(rng, g)
    return Spec(name, c, a, kw, c.Options(o))


def b_par(rng, name):
    g = _geo(rng)
    c = parcbpdn.ParConvBPDN
    o = gopt(rng)
    o.pop('AutoRho')
    return Spec(name, c, (g.D, g.S, .1, masked(rng, g)),
                dict(g.kw, nproc=1, ngrp=int(rng.integers(1, g.M + 1))),
                c.Options(o))


def b_tv(rng, name):
    n = name.split('.')[1]
    nd = int(rng.integers(1, 4))
    shp = tuple(int(v) for v in rng.integers(3, 7, nd))
    ax = tuple(sorted(rng.permutation(nd)[:int(rng.integers(1, nd + 1))]))
    ax = tuple(int(v) for v in ax)
    S = rng.standard_normal(shp)
    lm = float(rng.uniform(.05, .5))
    o = gopt(rng)
    if n == 'RobustPCA':
        c = rpca.RobustPCA
        return Spec(name, c, (rng.standard_normal((5, 7)), lm), {},
                    c.Options(o))
    if n == 'SplineL1':
        c = spline.SplineL1
        if rng.random() < .4:
            o['DFidWeight'] = (rng.random(shp) < .7) * 1.0
        return Spec(name, c, (S, lm), {'axes': ax}, c.Options(o))
    c = getattr(tvl1 if 'TVL1' in n else tvl2, n)
    if rng.random() < .4 and n != 'TVL2Deconv':
        o['DFidWeight'] = (rng.random(shp) < .7) * 1.0
    a = (S, lm)
    if 'Deconv' in n:
        a = (rng.standard_normal((3,) * len(ax)).reshape(
            tuple(3 if i in ax else 1 for i in range(nd))),) + a
    return Spec(name, c, a, {'axes': ax}, c.Options(o))


def b_cmod(rng, name):
    D, S, X = dense(rng)
    if name == 'admm.CnstrMOD':
        c = cmod.CnstrMOD
        o = gopt(rng)
        return Spec(name, c, (X, S), {}, c.Options(o))
    c = getattr(pcmod, name.split('.')[1])
    a = (X, S)
    if 'Weighted' in name:
        a += (rng.uniform(.2, 1, S.shape),)
    return Spec(name, c, a, {}, c.Options(popt(rng)))


def b_ccmod(rng, name):
    fam, n = name.split('.')
    g = _geo(rng)
    Z = rng.standard_normal(g.xshape)
    dsz = g.D.shape
    kw = dict(dimN=g.dimN, dimK=1 if g.dK else 0)
    a = (Z, g.S) + ((masked(rng, g),) if 'Mask' in n else ()) + (dsz,)
    if fam == 'pgm':
        c = getattr(pccmod, n)
        o = popt(rng)
    else:
        c = getattr(ccmodmd if 'Mask' in n else ccmod, n)
        o = gopt(rng)
        if n.endswith('CG'):
            o['CG'] = {'MaxIter': 200, 'StopTol': 1e-12}
    o['ZeroMean'] = bool(rng.random() < .3)
    return Spec(name, c, a, kw, c.Options(o))


def b_ppp(rng, name):
    shp = tuple(int(v) for v in rng.integers(2, 6, 2))
    s = rng.standard_normal(shp)
    A = float(rng.uniform(.3, 2))

    def f(x):
        return .5 * A * float(np.sum((x - s)**2))

    def den(x, rho):
        return .5 * (x + np.mean(x))
    if name == 'pgm.PPP':
        c = pppp.PPP
        o = {'MaxMainIter': int(rng.integers(1, 5)), 'L': A + 1.0,
             'DataType': np.float64}
        return Spec(name, c, (shp, f, lambda x: A * (x - s), den), {},
                    c.Options(o))
    if name == 'admm.PPP':
        c = ppp.PPP
        o = gopt(rng)
        o['DataType'] = np.float64
        return Spec(name, c, (shp, f, lambda x, r: (A * s + r * x) / (A + r),
                              den), {}, c.Options(o))
    c = ppp.PPPConsensus
    o = {'MaxMainIter': int(rng.integers(1, 5)), 'rho': 1.0,
         'DataType': np.float64}
    return Spec(name, c, (shp, [
        lambda x, r: (A * s + r * x) / (A + r),
        den]), {'mu': np.array([.5, .5])}, c.Options(o))


def b_dl(rng, name):
    n = name.split('.')[1]
    if n in ('BPDNDictLearn', 'WeightedBPDNDictLearn'):
        D, S, X = dense(rng)
        c = bpdndl.BPDNDictLearn if n[0] == 'B' else \
            wbpdndl.WeightedBPDNDictLearn
        o = {'MaxMainIter': int(rng.integers(1, 4)),
             'AccurateDFid': bool(rng.random() < .4)}
        o['BPDN'] = {'L': 50.0} if n[0] == 'W' else {'rho': 2.0}
        o['CMOD'] = {'L': 200.0} if n[0] == 'W' else {'rho': 5.0}
        a = (D, S, .2)
        kw = {}
        if n[0] == 'W':
            kw['W'] = rng.uniform(.2, 1, S.shape)
        return Spec(name, c, a, kw, c.Options(o))
    g = _geo(rng)
    D0 = rng.standard_normal(g.D.shape)
    kw = dict(dimN=g.dimN, dimK=1 if g.dK else 0)
    if n.startswith('Online'):
        c = getattr(onlinecdl, n)
        o = {'CBPDN': {'MaxMainIter': 3, 'rho': 2.0},
             'ZeroMean': bool(rng.random() < .3)}
        s = Spec(name, c, (D0, .1), kw, c.Options(o), 'online')
        s.stream = [(rng.standard_normal(g.S.shape),) +
                    ((masked(rng, g),) if 'Mask' in n else ())
                    for _ in range(3)]
        return s
    if n.endswith('Consensus'):
        g = csc.Geo(rng, np.float64, hi=7, Mmax=3, C=1)
        D0 = rng.standard_normal(g.D.shape)
        c = getattr(prlcnscdl, n)
        o = {'MaxMainIter': int(rng.integers(1, 4)), 'CBPDN': {'rho': 2.0},
             'CCMOD': {'rho': 2.0}}
        if not g.dK:
            g.S = g.S[..., None]
        a = (D0, g.S, .1) + ((masked(rng, g),) if 'Mask' in n else ())
        return Spec(name, c, a, dict(dimN=g.dimN, dimK=1, nproc=0),
                    c.Options(o))
    msk = 'Mask' in n
    c = cbpdndlmd.ConvBPDNMaskDictLearn if msk else cbpdndl.ConvBPDNDictLearn
    xm = str(rng.choice(['admm', 'pgm']))
    dm = str(rng.choice(['pgm', 'cns'] + ([] if msk else ['ism', 'cg'])))
    o = {'MaxMainIter': int(rng.integers(1, 4)),
         'AccurateDFid': bool(rng.random() < .4)}
    o['CBPDN'] = {'rho': 2.0} if xm == 'admm' else {'L': 50.0}
    o['CCMOD'] = {'rho': 2.0} if dm != 'pgm' else {'L': 200.0}
    a = (D0, g.S, .1) + ((masked(rng, g),) if msk else ())
    return Spec(name, c, a, dict(kw, xmethod=xm, dmethod=dm),
                c.Options(o, xmethod=xm, dmethod=dm))


BUILD = {}
for _n in ('BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1', 'MinL1InL2Ball'):
    BUILD['admm.' + _n] = b_bpdn
for _n in ('BPDN', 'WeightedBPDN'):
    BUILD['pgm.' + _n] = b_bpdn
for _n in ('ConvBPDN', 'ConvBPDNJoint', 'ConvElasticNet', 'ConvBPDNGradReg',
           'ConvBPDNProjL1', 'ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl',
           'ConvL1L1Grd', 'ConvBPDNInhib', 'ConvBPDNScalarTV',
           'ConvBPDNVectorTV', 'ConvBPDNRecTV', 'ConvProdDictBPDN',
           'ConvProdDictBPDNJoint', 'ConvProdDictL1L1Grd',
           'ConvProdDictL1L1GrdJoint'):
    BUILD['admm.' + _n] = b_cbpdn
for _n in ('ConvBPDN', 'ConvBPDNMask'):
    BUILD['pgm.' + _n] = b_cbpdn
BUILD['admm.ParConvBPDN'] = b_par
for _n in ('RobustPCA', 'SplineL1', 'TVL1Denoise', 'TVL1Deconv',
           'TVL2Denoise', 'TVL2Deconv'):
    BUILD['admm.' + _n] = b_tv
for _n in ('admm.CnstrMOD', 'pgm.CnstrMOD', 'pgm.WeightedCnstrMOD'):
    BUILD[_n] = b_cmod
for _n in ('admm.ConvCnstrMOD_IterSM', 'admm.ConvCnstrMOD_CG',
           'admm.ConvCnstrMOD_Consensus', 'admm.ConvCnstrMODMaskDcpl_IterSM',
           'admm.ConvCnstrMODMaskDcpl_CG',
           'admm.ConvCnstrMODMaskDcpl_Consensus', 'pgm.ConvCnstrMOD',
           'pgm.ConvCnstrMODMask'):
    BUILD[_n] = b_ccmod
for _n in ('admm.PPP', 'admm.PPPConsensus', 'pgm.PPP'):
    BUILD[_n] = b_ppp
for _n in ('BPDNDictLearn', 'WeightedBPDNDictLearn', 'ConvBPDNDictLearn',
           'ConvBPDNMaskDictLearn', 'OnlineConvBPDNDictLearn',
           'OnlineConvBPDNMaskDictLearn', 'ConvBPDNDictLearn_Consensus',
           'ConvBPDNMaskDcplDictLearn_Consensus'):
    BUILD['dl.' + _n] = b_dl
NAMES = sorted(BUILD)
# classes working on module global data: not for concurrent threads
GLOBAL = {'admm.ParConvBPDN', 'dl.ConvBPDNDictLearn_Consensus',
          'dl.ConvBPDNMaskDcplDictLearn_Consensus'}


def initial(rng, s):
    """Add random initial values for the working variables, in the type of
    the solver, to the options"""
    o = s.make()
    if s.name.split('.')[0] == 'admm':
        names = ('Y', 'U') if rng.random() < .7 else ('Y',)
    else:
        names = ('X',)
    for v in names:
        x = getattr(o, v, None)
        if isinstance(x, np.ndarray) and v + '0' in s.opt and \
                s.opt[v + '0'] is None:
            s.opt[v + '0'] = rng.standard_normal(x.shape).astype(x.dtype)
    return s


def spec(rng, name):
    s = BUILD[name](rng, name)
    if not name.startswith('dl.') and name not in GLOBAL and \
            rng.random() < .3:
        initial(rng, s)
    return s


READ = ('obfn_fvar', 'obfn_gvar', 'obfn_fvarf', 'eval_objfn', 'obfn_dfd',
        'obfn_reg', 'obfn_cns', 'obfn_f', 'obfn_g0var', 'obfn_g1var',
        'var_x', 'var_y', 'var_u', 'var_y0', 'var_y1', 'var_xprv',
        'getitstat', 'getcoef', 'getmin', 'getdict', 'reconstruct',
        'itstat_extra', 'var_momentum', 'hdrtxt', 'hdrval')


def poke(rng, obj, p=.4):
    """Calls of methods which read the solver state; returns their names"""
    done = []
    for f in READ:
        if not hasattr(obj, f) or rng.random() > p:
            continue
        arg, kw = (), {}
        if f == 'reconstruct' and rng.random() < .6:
            for nm in ('getcoef', 'getmin'):
                try:
                    z = getattr(obj, nm)()
                except (AttributeError, NotImplementedError, TypeError):
                    continue
                z = rng.standard_normal(z.shape).astype(z.dtype)
                if 'dictlrn' in type(obj).__module__:
                    kw = {'X': z}
                else:
                    arg = (z,)
                break
            f2 = f + '(X)'
        else:
            f2 = f
        try:
            getattr(obj, f)(*arg, **kw)
            done.append(f2)
        except (NotImplementedError, TypeError, AttributeError, KeyError):
            pass                    # not available (yet)
    return done
