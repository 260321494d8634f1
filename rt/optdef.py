"""Documented default options.

Run as a program: imports the modules given as arguments (all of sporco's
without arguments) in that order and writes to standard output, one JSON line
per import, the default options of every options class seen so far."""
import importlib
import inspect
import json
import os
import sys

FN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'defaults.json')


MODULES = ['sporco.' + m for m in (
    'array', 'cdict', 'cnvrep', 'common', 'fft', 'interp', 'linalg', 'metric',
    'signal', 'util', 'prox', 'admm.admm', 'admm.bpdn', 'admm.cbpdn',
    'admm.cbpdnin', 'admm.cbpdntv', 'admm.ccmod', 'admm.ccmodmd',
    'admm.cmod', 'admm.parcbpdn', 'admm.pdcsc', 'admm.ppp', 'admm.rpca',
    'admm.spline', 'admm.tvl1', 'admm.tvl2', 'pgm.backtrack', 'pgm.bpdn',
    'pgm.cbpdn', 'pgm.ccmod', 'pgm.cmod', 'pgm.momentum', 'pgm.pgm',
    'pgm.ppp', 'pgm.stepsize', 'dictlrn.bpdndl', 'dictlrn.cbpdndl',
    'dictlrn.cbpdndlmd', 'dictlrn.dictlrn', 'dictlrn.onlinecdl',
    'dictlrn.prlcnscdl', 'dictlrn.wbpdndl')]


def enc(v, depth=0):
    """Canonical description of an option value"""
    if isinstance(v, dict):
        return {str(k): enc(dict.__getitem__(v, k), depth + 1) for k in v}
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, type):
        return 'class ' + v.__name__
    try:
        f = complex(v)
        return float(f.real) if f.imag == 0 else [f.real, f.imag]
    except TypeError:
        pass
    if isinstance(v, (list, tuple)):
        return [enc(w, depth + 1) for w in v]
    if callable(v) and hasattr(v, '__name__'):
        return 'function'
    d = {'': type(v).__name__}
    if depth < 6:
        d.update({k: enc(w, depth + 1) for k, w in
                  sorted(getattr(v, '__dict__', {}).items())
                  if not k.startswith('_')})
    return d


def options(names):
    """Options classes defined in the named modules"""
    from sporco.cdict import ConstrainedDict
    out = {}
    for m in names:
        mod = sys.modules.get(m)
        for n, c in sorted(vars(mod).items()) if mod else ():
            if inspect.isclass(c) and c.__module__ == m and \
                    isinstance(c.__dict__.get('Options'), type) and \
                    issubclass(c.Options, ConstrainedDict):
                out[m[7:] + '.' + n] = c.Options
    return out


VARIANTS = {'dictlrn.cbpdndl.ConvBPDNDictLearn': 'ism cg cns pgm',
            'dictlrn.cbpdndlmd.ConvBPDNMaskDictLearn': 'ism cg cns pgm'}


def state(names):
    out = {}
    for k, c in options(names).items():
        out[k] = enc(c())
        for dm in VARIANTS.get(k, '').split():
            for xm in ('admm', 'pgm'):
                out['%s %s %s' % (k, xm, dm)] = enc(c(xmethod=xm,
                                                      dmethod=dm))
    return out


def differences(a, b, pre=''):
    """Paths at which two descriptions differ, for keys in both of them"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in a:
            if k in b:
                out += differences(a[k], b[k], pre + '/' + k)
        return out
    return [] if a == b else ['%s: %r != %r' % (pre, a, b)]


if __name__ == '__main__':
    names = sys.argv[1:] or MODULES
    for n in names:
        importlib.import_module(n)
        if len(sys.argv) > 1:
            print(json.dumps(state([m for m in sys.modules
                                    if m.startswith('sporco.')])))
    if len(sys.argv) == 1:
        json.dump(state(names), sys.stdout, indent=1, sort_keys=True)
