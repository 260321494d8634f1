"""A stand-in for the cupy package: arrays which live on a pretended device.

It follows the rules of CuPy which matter to programs written for it: device
arrays are not numpy arrays, they may not be mixed with host arrays (other
than through asarray / array / asnumpy), are not converted implicitly, and
reductions give zero-dimensional device arrays. Values are computed by numpy.
Every mixture is refused with TypeError and counted."""
import sys
import types

import numpy as np

COUNT = {'calls': 0, 'to_device': 0, 'to_host': 0, 'refused': 0}


class Refused(TypeError):
    pass


def refuse(msg):
    COUNT['refused'] += 1
    raise Refused(msg)


class ndarray(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 100
    __slots__ = ('_a',)

    def __init__(self, a):
        self._a = a

    # host access is explicit only
    def __array__(self, *a, **k):
        refuse('Implicit conversion to a NumPy array is not allowed')

    def get(self):
        COUNT['to_host'] += 1
        return np.array(self._a)

    def __array_ufunc__(self, uf, method, *ins, **kw):
        COUNT['calls'] += 1
        if 'out' in kw and kw['out'] is not None:
            if any(o is not None and not isinstance(o, ndarray)
                   for o in kw['out']):
                refuse('device result into host array')
        ins = [dev_arg(v) for v in ins]
        kw = {k: (tuple(un(w) for w in v) if k == 'out' else dev_arg(v))
              for k, v in kw.items()}
        r = getattr(uf, method)(*ins, **kw)
        return wrap_out(r, kw.get('out'))

    def __array_function__(self, fn, types_, args, kw):
        COUNT['calls'] += 1
        return wrap(fn(*[dev_arg(v) for v in args],
                       **{k: dev_arg(v) for k, v in kw.items()}))

    shape = property(lambda s: s._a.shape,
                     lambda s, v: setattr(s._a, 'shape', v))
    ndim = property(lambda s: s._a.ndim)
    size = property(lambda s: s._a.size)
    dtype = property(lambda s: s._a.dtype)
    itemsize = property(lambda s: s._a.itemsize)
    nbytes = property(lambda s: s._a.nbytes)
    strides = property(lambda s: s._a.strides)
    flags = property(lambda s: s._a.flags)
    T = property(lambda s: ndarray(s._a.T))

    @property
    def real(self):
        return ndarray(self._a.real)

    @real.setter
    def real(self, v):
        self._a.real = dev_arg(v)

    @property
    def imag(self):
        return ndarray(self._a.imag)

    @imag.setter
    def imag(self, v):
        self._a.imag = dev_arg(v)

    def __getitem__(self, i):
        return wrap(self._a[idx(i)])

    def __setitem__(self, i, v):
        self._a[idx(i)] = dev_arg(v)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return (ndarray(np.asarray(v)) for v in self._a)

    def __bool__(self):
        return bool(self._a)

    def __float__(self):
        return float(self._a)

    def __int__(self):
        return int(self._a)

    def __index__(self):
        return self._a.__index__()

    def __complex__(self):
        return complex(self._a)

    def __repr__(self):
        return 'device' + repr(self._a)

    def __format__(self, f):
        return format(self._a.item() if self._a.ndim == 0 else self._a, f)

    def __copy__(self):
        return ndarray(self._a.copy())

    def __deepcopy__(self, memo):
        return ndarray(self._a.copy())

    def __reduce__(self):
        return (ndarray, (self._a,))


def _meth(name):
    def m(self, *a, **k):
        COUNT['calls'] += 1
        return wrap(getattr(self._a, name)(
            *[dev_arg(v) for v in a], **{q: dev_arg(v)
                                         for q, v in k.items()}))
    m.__name__ = name
    return m


for _n in ('all any argmax argmin argsort astype clip conj conjugate copy '
           'cumprod cumsum diagonal dot fill flatten max mean min nonzero '
           'prod ravel repeat reshape round sort squeeze std sum swapaxes '
           'take tolist trace transpose var view item tobytes').split():
    setattr(ndarray, _n, _meth(_n))


def un(v):
    return v._a if isinstance(v, ndarray) else v


def idx(i):
    if isinstance(i, tuple):
        return tuple(idx(j) for j in i)
    return un(i)


def dev_arg(v):
    """Argument of a device operation"""
    if isinstance(v, ndarray):
        return v._a
    if isinstance(v, np.ndarray):
        refuse('Unsupported type %r with shape %r' % (type(v), v.shape))
    if isinstance(v, (list, tuple)):
        return type(v)(dev_arg(w) for w in v) if type(v) in (
            list, tuple) else v
    return v


def wrap(r):
    if isinstance(r, np.ndarray):
        return ndarray(r)
    if isinstance(r, np.generic):
        return ndarray(np.asarray(r))
    if isinstance(r, tuple):
        v = [wrap(w) for w in r]
        return type(r)(*v) if hasattr(r, '_fields') else tuple(v)
    if isinstance(r, list):
        return [wrap(w) for w in r]
    return r


def wrap_out(r, out):
    return wrap(r)


def func(fn):
    def f(*a, **k):
        COUNT['calls'] += 1
        return wrap(fn(*[dev_arg(v) for v in a],
                       **{q: dev_arg(v) for q, v in k.items()}))
    f.__name__ = getattr(fn, '__name__', 'f')
    f.__doc__ = 'device'
    return f


class Module(types.ModuleType):
    def __init__(self, name, base, extra=(), hide=()):
        super().__init__(name)
        self.__path__ = []
        self._base = base
        self._hide = set(hide)
        for k, v in dict(extra).items():
            setattr(self, k, v)

    def __getattr__(self, k):
        if k.startswith('__') or k in self._hide:
            raise AttributeError(k)
        v = getattr(self._base, k)
        if isinstance(v, types.ModuleType):
            raise AttributeError('%s.%s' % (self.__name__, k))
        if isinstance(v, type) or not callable(v) or isinstance(
                v, np.dtype):
            return v
        w = func(v)
        setattr(self, k, w)
        return w


def to_dev(x, dtype=None, *a, **k):
    if isinstance(x, ndarray):
        r = np.asarray(x._a, dtype, *a, **k)
        return x if r is x._a else ndarray(r)
    if isinstance(x, (list, tuple)):
        x = [un(v) for v in x]
    COUNT['to_device'] += 1
    return ndarray(np.array(x, dtype))


def new_dev(x, dtype=None, copy=True, **k):
    if isinstance(x, (list, tuple)):
        x = [un(v) for v in x]
    return ndarray(np.array(un(x), dtype))


def asnumpy(x, *a, **k):
    COUNT['to_host'] += 1
    return np.array(un(x))


class Device:
    compute_capability = '70'
    used = []

    def __init__(self, i=0):
        self.id = i

    def use(self):
        Device.used.append(self.id)


def install(gputil=None):
    import scipy.linalg as sl
    cuda = types.ModuleType('cupy.cuda')
    cuda.Device = Device
    extra = {'ndarray': ndarray, 'asarray': to_dev, 'array': new_dev,
             'ascontiguousarray': to_dev, 'asnumpy': asnumpy, 'cuda': cuda,
             'linalg': Module('cupy.linalg', np.linalg),
             'fft': Module('cupy.fft', np.fft),
             'random': Module('cupy.random', np.random),
             'get_array_module': lambda *a: cp if any(
                 isinstance(v, ndarray) for v in a) else np,
             'newaxis': None}
    # the parts of numpy which cupy lacks
    cp = Module('cupy', np, extra, hide=('product', 'float128',
                                         'longdouble', 'complex256'))
    cx = types.ModuleType('cupyx')
    cxs = types.ModuleType('cupyx.scipy')
    cxl = Module('cupyx.scipy.linalg', sl)
    cx.scipy, cxs.linalg = cxs, cxl
    for n, m in (('cupy', cp), ('cupy.cuda', cuda), ('cupyx', cx),
                 ('cupyx.scipy', cxs), ('cupyx.scipy.linalg', cxl)):
        sys.modules[n] = m
    if gputil is not None:
        sys.modules['GPUtil'] = gputil
    return cp
