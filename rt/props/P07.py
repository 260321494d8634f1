"""Options dictionaries: defaults, validation, nesting, isolation"""
import contextlib
import copy
import importlib
import inspect
import io
import json
import pickle
import pkgutil
import subprocess
import sys
import numpy as np
import sporco
from sporco.admm.admm import ADMMEqual, ADMMConsensus
from rt import optdef, registry
from sporco.cdict import (ConstrainedDict, UnknownKeyError,
                          InvalidValueError, keycmp)

RULE = ('(a) random histories of set / nested update / path set / get / copy / '
        'pickle operations, valid and invalid, on randomly generated default '
        'trees, checked after every operation against a reference model; (b) '
        'the same on every options class found in the package; distinct = '
        '(operation, depth, outcome) resp. (class, path, operation); (c) fresh '
        'processes importing modules in random order, recording the defaults '
        'of every class after each import')
ASSUMPTIONS = ['values assigned to dict-valued options are plain dicts',
               'flags derived from the auxiliary-variable flag are not '
               'themselves assigned']
EXPECT = {'model.content', 'model.get', 'model.unknown', 'model.invalid',
          'model.copy', 'model.isolation', 'keycmp', 'cls.defaults',
          'cls.override', 'cls.unknown', 'cls.invalid', 'cls.isolation',
          'ctor.defaults', 'ctor.param', 'factory.class', 'factory.content',
          'factory.pickle', 'factory.unknown', 'factory.nested',
          'imp.stable', 'imp.documented', 'imp.class', 'cls.pickle', 'cls.auxvar', 'cls.input'}


class Leaf:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Leaf) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


_classes = None


def classes():
    global _classes
    if _classes is None:
        out = {}
        for m in pkgutil.walk_packages(sporco.__path__, 'sporco.'):
            if '.cupy' in m.name or '.plot' in m.name:
                continue
            try:
                mod = importlib.import_module(m.name)
            except ImportError:
                continue
            for n, c in sorted(vars(mod).items()):
                if inspect.isclass(c) and c.__module__ == m.name and \
                        isinstance(getattr(c, 'Options', None), type) and \
                        issubclass(c.Options, ConstrainedDict):
                    out[m.name[7:] + '.' + n] = c.Options
        _classes = out
    return _classes


def cases(tier):
    q = tier == 'quick'
    out = [{'kind': 'model', 'n': i} for i in range(8000 if q else 40000)]
    out += [{'kind': 'imports', 'n': i} for i in range(12 if q else 100)]
    out += [{'kind': 'ctor', 'n': 1000 * j + i, 'cls': c}
            for j, c in enumerate(registry.NAMES)
            for i in range(4 if q else 20)]
    out += [{'kind': 'factory', 'n': i} for i in range(200 if q else 2000)]
    out += [{'kind': 'cls:' + c, 'n': i}
            for i in range(80 if q else 400) for c in sorted(classes())]
    return out


def run(case, mon, rng):
    if case['kind'] == 'model':
        go_model(mon, rng)
    elif case['kind'] == 'imports':
        go_imports(mon, rng)
    elif case['kind'] == 'ctor':
        go_ctor(mon, rng, case['cls'])
    elif case['kind'] == 'factory':
        go_factory(mon, rng)
    else:
        c = case['kind'][4:]
        go_cls(mon, rng, classes()[c], c)


def go_imports(mon, rng):
    """The defaults of a class do not depend on which other modules are
    imported, nor on the order of the imports"""
    names = [optdef.MODULES[i] for i in rng.permutation(
        len(optdef.MODULES))][:int(rng.integers(3, 45))]
    p = subprocess.run([sys.executable, optdef.__file__] + names,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=600)
    if not mon.ok('imp.process', p.returncode == 0, err=p.stderr[-800:]):
        return
    seen = {}
    for i, ln in enumerate(p.stdout.decode().splitlines()):
        for c, d in json.loads(ln).items():
            if c not in seen:
                seen[c] = d
                mon.event('imp.class', (c, names[i]))
            df = optdef.differences(seen[c], d)
            mon.ok('imp.stable', not df, cls=c, after=names[i], diff=df)
            df = optdef.differences(DOC.get(c, {}), d)
            mon.ok('imp.documented', not df, sig=c, cls=c, diff=df)


def go_ctor(mon, rng, name):
    """A solver constructed without options, or with a default options
    object, uses the defaults of its class"""
    s = registry.spec(rng, name)
    kw = {k: v for k, v in s.kw.items() if k in ('xmethod', 'dmethod')}
    want = optdef.enc(s.cls.Options(**kw))
    objs = [s.cls(*s.args, **s.kw), s.cls(*s.args, opt=None, **s.kw),
            s.cls(*s.args, opt=s.cls.Options(**kw), **s.kw)]
    for i, o in enumerate(objs):
        got = optdef.enc(o.opt)
        for k in ('CCMOD', 'CMOD') if name.startswith('dl.') else ():
            for f in ('X0', 'Y0', 'U0'):
                got.get(k, {}).pop(f, None)
        df = optdef.differences(want, got)
        mon.ok('ctor.defaults', not df,
               sig=(name, i), cls=name, how=i, diff=df, type=type(o.opt))
    # and it can be used
    if s.mode == 'online':
        objs[0].opt['CBPDN']['MaxMainIter'] = 2
    else:
        objs[0].opt['MaxMainIter'] = 1
    with contextlib.redirect_stdout(io.StringIO()):
        s.step(objs[0])
    # the numerical parameters agree as well
    for f in ('rho', 'rlx', 'rho_tau', 'rho_mu', 'rho_xi', 'L', 'nproc'):
        if hasattr(objs[1], f):
            v = [optdef.enc(getattr(o, f)) for o in objs[1:]]
            mon.ok('ctor.param', v[0] == v[1], sig=(name, f),
                   cls=name, f=f, v=v)


FACT = [('cbpdndl', 'ConvBPDNOptions', 'cbpdn_class_label_lookup',
         ('admm', 'pgm')),
        ('cbpdndl', 'ConvCnstrMODOptions', 'ccmod_class_label_lookup',
         ('ism', 'cg', 'cns', 'pgm')),
        ('cbpdndlmd', 'ConvBPDNMaskOptions', 'cbpdnmsk_class_label_lookup',
         ('admm', 'pgm')),
        ('cbpdndlmd', 'ConvCnstrMODMaskOptions',
         'ccmodmsk_class_label_lookup', ('ism', 'cg', 'cns', 'pgm'))]
KLASS = {('ConvBPDNOptions', 'admm'): 'admm.cbpdn.ConvBPDN',
         ('ConvBPDNOptions', 'pgm'): 'pgm.cbpdn.ConvBPDN',
         ('ConvCnstrMODOptions', 'ism'): 'admm.ccmod.ConvCnstrMOD_IterSM',
         ('ConvCnstrMODOptions', 'cg'): 'admm.ccmod.ConvCnstrMOD_CG',
         ('ConvCnstrMODOptions', 'cns'): 'admm.ccmod.ConvCnstrMOD_Consensus',
         ('ConvCnstrMODOptions', 'pgm'): 'pgm.ccmod.ConvCnstrMOD',
         ('ConvBPDNMaskOptions', 'admm'): 'admm.cbpdn.ConvBPDNMaskDcpl',
         ('ConvBPDNMaskOptions', 'pgm'): 'pgm.cbpdn.ConvBPDNMask',
         ('ConvCnstrMODMaskOptions', 'ism'):
         'admm.ccmodmd.ConvCnstrMODMaskDcpl_IterSM',
         ('ConvCnstrMODMaskOptions', 'cg'):
         'admm.ccmodmd.ConvCnstrMODMaskDcpl_CG',
         ('ConvCnstrMODMaskOptions', 'cns'):
         'admm.ccmodmd.ConvCnstrMODMaskDcpl_Consensus',
         ('ConvCnstrMODMaskOptions', 'pgm'): 'pgm.ccmod.ConvCnstrMODMask'}


def go_factory(mon, rng):
    """Options of the solvers selected by name in dictionary learning"""
    m, f, lk, meth = FACT[int(rng.integers(len(FACT)))]
    mod = importlib.import_module('sporco.dictlrn.' + m)
    mt = meth[int(rng.integers(len(meth)))]
    cn = KLASS[f, mt]
    c = getattr(importlib.import_module('sporco.' + cn.rsplit('.', 1)[0]),
                cn.rsplit('.', 1)[1])
    base = c.Options()
    tree = plain(base)
    leaves = [p for p, v in paths(tree) if not isinstance(v, dict) and
              p[-1] not in SKIP and p[-1] != 'AuxVarObj']
    p = leaves[int(rng.integers(len(leaves)))]
    val = int(rng.integers(2, 50))
    src = nest(p, val)
    o = getattr(mod, f)(copy.deepcopy(src), method=mt)
    want = c.Options(copy.deepcopy(src))
    sig = (f, mt)
    mon.ok('factory.class', isinstance(o, c.Options), sig=sig, tag=sig,
           mro=type(o).__mro__)
    mon.ok('factory.content', same(plain(o), plain(want)), sig=sig, tag=sig,
           diff=diff(plain(o), plain(want)))
    q = pickle.loads(pickle.dumps(o))
    mon.ok('factory.pickle', type(q) is type(o) and
           same(plain(q), plain(o)), sig=sig, tag=sig)
    mon.ok('factory.class', getattr(mod, lk)(mt) is c, tag=sig)
    mon.raises('cls.unknown', UnknownKeyError, lambda: getattr(mod, f)(
        nest(p[:-1] + ('NoSuch',), 1), method=mt), sig=sig)
    mon.raises('factory.unknown', ValueError, lambda: getattr(mod, f)(
        None, method='nosuch'), sig=f)
    # options of the learning problem nest those of the selected solvers
    D = {'cbpdndl': 'ConvBPDNDictLearn', 'cbpdndlmd':
         'ConvBPDNMaskDictLearn'}[m]
    D = getattr(mod, D).Options
    kx = 'CBPDN' if 'BPDN' in f else 'CCMOD'
    om = {'CBPDN': FACT[0][3], 'CCMOD': FACT[1][3]}[
        'CCMOD' if kx == 'CBPDN' else 'CBPDN']
    om = om[int(rng.integers(len(om)))]
    kw = {'xmethod': mt, 'dmethod': om} if kx == 'CBPDN' else \
        {'xmethod': om, 'dmethod': mt}
    o1, o2 = D(**kw), D({kx: copy.deepcopy(src)}, **kw)
    mon.ok('factory.class', isinstance(o2[kx], c.Options), sig=sig, tag=sig)
    d = diff(plain(o2), plain(o1))
    mon.ok('factory.nested', same(o2[(kx,) + p], val) and
           set(d) <= {(kx,) + p}, sig=sig, tag=(sig, p), changed=d)


with open(optdef.FN) as _f:
    DOC = json.load(_f)


def mktree(rng, depth):
    d = {}
    for i in range(int(rng.integers(1, 4))):
        if depth > 0 and rng.random() < 0.45:
            d['d%d' % i] = mktree(rng, depth - 1)
        else:
            d['k%d' % i] = rng.choice([None, 0, 1, 7])
    return d


def plain(x):
    if isinstance(x, dict):
        return {k: plain(dict.__getitem__(x, k)) for k in dict.keys(x)}
    return x


def paths(d, pre=()):
    for k, v in d.items():
        yield pre + (k,), v
        if isinstance(v, dict):
            for p in paths(v, pre + (k,)):
                yield p


def getp(d, p):
    for k in p:
        d = d[k]
    return d


def merge(d, u):
    for k, v in u.items():
        if isinstance(v, dict):
            merge(d[k], v)
        else:
            d[k] = v


def sub_update(rng, d):
    """random partial nested dict of valid new values"""
    u = {}
    for k, v in d.items():
        if rng.random() < 0.5:
            u[k] = sub_update(rng, v) if isinstance(v, dict) \
                else int(rng.integers(100))
    return u


def corrupt(rng, d, u, how):
    """make u invalid with respect to d at a random node; returns True if
    possible"""
    nodes = [(d, u)]
    flat = []
    while nodes:
        a, b = nodes.pop()
        flat.append((a, b))
        for k in b:
            if isinstance(b[k], dict):
                nodes.append((a[k], b[k]))
    order = rng.permutation(len(flat))
    for i in order:
        a, b = flat[i]
        if how == 'unknown':
            b['zz%d' % int(rng.integers(3))] = 3 if rng.random() < .5 \
                else {'q': 1}
            return True
        dk = [k for k in a if isinstance(a[k], dict)]
        if dk:
            b[dk[int(rng.integers(len(dk)))]] = 3
            return True
    return False


def same(a, b):
    """structural equality, objects compared by type and array values"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            set(a) == set(b) and all(same(dict.__getitem__(a, k),
                                          dict.__getitem__(b, k)) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b)
    try:
        if bool(a == b):
            return True
    except Exception:
        pass
    return type(a) is type(b) and hasattr(a, '__dict__') and \
        same(vars(a), vars(b))


def go_model(mon, rng):
    tree = mktree(rng, int(rng.integers(0, 4)))
    orig = copy.deepcopy(tree)

    class T(ConstrainedDict):
        defaults = tree

    objs = [(T(), copy.deepcopy(tree))]
    for step in range(int(rng.integers(4, 14))):
        i = int(rng.integers(len(objs)))
        o, m = objs[i]
        op = rng.choice(['set', 'pset', 'update', 'get', 'bad', 'badpath',
                         'inv', 'badup', 'new', 'copy', 'keycmp'])
        allp = list(paths(m))
        leaves = [p for p, v in allp if not isinstance(v, dict)]
        dicts = [p for p, v in allp if isinstance(v, dict)]
        p, v = allp[int(rng.integers(len(allp)))]
        sig = (str(op), len(p))
        if op in ('set', 'pset') and leaves:
            p = leaves[int(rng.integers(len(leaves)))]
            val = int(rng.integers(1000)) if rng.random() < 0.8 \
                else [1, {'a': 2}]
            if op == 'set':
                getp(o, p[:-1])[p[-1]] = val
            else:
                o[p] = val
            getp(m, p[:-1])[p[-1]] = val
            sig = (str(op), len(p))
        elif op == 'update':
            u = sub_update(rng, m)
            u0 = copy.deepcopy(u)
            o.update(u)
            mon.ok('model.isolation', u == u0, sig=sig)
            merge(m, copy.deepcopy(u0))
            # later changes to the supplied dict have no effect
            for k in list(u):
                if isinstance(u[k], dict):
                    u[k]['k0'] = 'poison'
        elif op == 'get':
            a = o[p]
            b = o
            for k in p:
                b = b[k]
            mon.ok('model.get', plain(a) == plain(b) == plain(getp(m, p)),
                   sig=sig, p=p)
        elif op == 'bad':
            q = dicts[int(rng.integers(len(dicts)))] if dicts and \
                rng.random() < 0.6 else ()
            bad = q + ('nokey',)
            mon.raises('model.unknown', UnknownKeyError,
                       lambda: o.__getitem__(bad), sig=('get', len(q)))
            mon.raises('model.unknown', UnknownKeyError,
                       lambda: o.__setitem__(bad, 1), sig=('set', len(q)))
            mon.raises('model.unknown', UnknownKeyError,
                       lambda: o.__setitem__(bad, {'a': 1}),
                       sig=('setd', len(q)))
            node = getp(o, q)
            mon.raises('model.unknown', UnknownKeyError,
                       lambda: node.__setitem__('nokey', 1))
        elif op == 'badpath':
            mon.raises('model.unknown', (UnknownKeyError, InvalidValueError),
                       lambda: o.__setitem__(('nokey', 'x'), 1),
                       sig=('path', 1))
        elif op == 'inv' and dicts:
            q = dicts[int(rng.integers(len(dicts)))]
            mon.raises('model.invalid', InvalidValueError,
                       lambda: o.__setitem__(q, 5), sig=len(q))
            mon.raises('model.invalid', InvalidValueError,
                       lambda: getp(o, q[:-1]).__setitem__(q[-1], None))
        elif op == 'badup':
            how = 'unknown' if rng.random() < 0.6 else 'invalid'
            u = sub_update(rng, orig)
            if corrupt(rng, orig, u, how):
                exc = UnknownKeyError if how == 'unknown' else \
                    InvalidValueError
                mon.raises('model.' + how, exc, lambda: T(u),
                           sig=('ctor', how))
                mon.raises('keycmp', exc, lambda: keycmp(orig, u), sig=how)
        elif op == 'new' and len(objs) < 4:
            u = sub_update(rng, orig)
            u0 = copy.deepcopy(u)
            mm = copy.deepcopy(orig)
            merge(mm, u0)
            objs.append((T(u), mm))
            mon.ok('model.isolation', u == u0, sig='ctor')
        elif op == 'copy' and len(objs) < 4:
            c = copy.deepcopy(o)
            mon.ok('model.copy', type(c) is T and plain(c) == m, sig=sig)
            objs.append((c, copy.deepcopy(m)))
        elif op == 'keycmp':
            keycmp(orig, sub_update(rng, orig))
            mon.event('keycmp', 'ok')
        for oo, mm in objs:
            mon.ok('model.content', plain(oo) == mm, sig=sig, op=op, p=p,
                   got=plain(oo), want=mm)
        mon.ok('model.isolation', T.defaults == orig, op=op)


SKIP = {'fEvalX', 'gEvalY'}


def diff(a, b, pre=()):
    """paths at which two trees differ"""
    out = []
    for k in sorted(set(a) | set(b), key=str):
        if (k not in a) or (k not in b):
            out.append(pre + (k,))
            continue
        x, y = dict.__getitem__(a, k), dict.__getitem__(b, k)
        if isinstance(x, dict) and isinstance(y, dict):
            out += diff(x, y, pre + (k,))
        elif not same(x, y):
            out.append(pre + (k,))
    return out


def derived(p):
    """options which assigning p is documented to change as well"""
    if p[-1] == 'AuxVarObj':
        return {p[:-1] + ('fEvalX',), p[:-1] + ('gEvalY',)}
    return set()


def nest(p, v):
    for k in reversed(p):
        v = {k: v}
    return v


def go_cls(mon, rng, cls, name):
    a = cls()
    dfl = copy.deepcopy(cls.defaults)
    base = copy.deepcopy(plain(a))
    # every key of the defaults is present
    miss = [p for p, v in paths(dfl)
            if not _has(a, p)]
    mon.ok('cls.defaults', not miss, sig=name, cls=name, missing=miss)
    # default values (a None default may be filled in on construction)
    if not any(isinstance(dict.__getitem__(a, k), ConstrainedDict) and
               type(dict.__getitem__(a, k)) is not ConstrainedDict
               for k in a):
        bad = [p for p in diff(base, dfl) if getp(dfl, p) is not None]
        mon.ok('cls.defaults', not bad, cls=name, bad=bad)
    leaves = [p for p, v in paths(base) if not isinstance(v, dict) and
              p[-1] not in SKIP]
    for rep in range(8):
        p = leaves[int(rng.integers(len(leaves)))]
        val = bool(rng.random() < 0.5) if p[-1] == 'AuxVarObj' or \
            isinstance(getp(base, p), bool) else int(rng.integers(2, 50))
        how = str(rng.choice(['ctor', 'path', 'chain', 'update']))
        src = nest(p, val)
        src0 = copy.deepcopy(src)
        if how == 'ctor':
            o = cls(src)
        else:
            o = cls()
            if how == 'path':
                o[p if len(p) > 1 else p[0]] = val
            elif how == 'chain':
                getp(o, p[:-1])[p[-1]] = val
            else:
                o.update(src)
        mon.ok('cls.input', src == src0, cls=name)
        sig = (name, p, how)
        d = set(diff(plain(o), base))
        mon.ok('cls.override', same(o[p], val) and d <= {p} | derived(p),
               sig=sig, cls=name, p=p, how=how, val=val, got=o[p], changed=d)
        if p[-1] == 'AuxVarObj':
            par = getp(o, p[:-1])
            if isinstance(par, (ADMMEqual.Options, ADMMConsensus.Options)):
              mon.ok('cls.auxvar', par['fEvalX'] == (not val) and
                   par['gEvalY'] == val, sig=(name, how, val), cls=name,
                   p=p, how=how, val=val)
        mon.ok('cls.isolation', same(plain(cls()), base) and
               same(plain(a), base), sig=sig, cls=name, p=p, how=how)
        if not any(q[-1] in SKIP for q in d) and rng.random() < 0.5:
            # (nested options of dynamically created class types cannot be
            # pickled once another instance exists; not claimed)
            cps = [copy.deepcopy(o)]
            if all(type(v) is ConstrainedDict for v in dict.values(o)
                   if isinstance(v, dict)):
                cps.append(pickle.loads(pickle.dumps(o)))
            for q in cps:
                mon.ok('cls.pickle', type(q) is type(o) and
                       same(plain(q), plain(o)), sig=name, cls=name, p=p)
            q = copy.deepcopy(o)
            q[p] = 99
            mon.ok('cls.isolation', same(o[p], val), cls=name)
    # rejection
    dn = [()] + [p for p, v in paths(base) if isinstance(v, dict)]
    for q in dn:
        bad = q + ('NoSuchOption',)
        before = copy.deepcopy(plain(a))
        mon.raises('cls.unknown', UnknownKeyError,
                   lambda: cls(nest(bad, 1)), sig=(name, q), cls=name, q=q)
        mon.raises('cls.unknown', UnknownKeyError,
                   lambda: a.__setitem__(bad, 1), sig=(name, q, 'set'),
                   cls=name, q=q)
        mon.raises('cls.unknown', UnknownKeyError,
                   lambda: a.__getitem__(bad), cls=name, q=q)
        mon.raises('cls.unknown', UnknownKeyError,
                   lambda: a.update(nest(bad, 1)), cls=name, q=q)
        if q:
            mon.raises('cls.invalid', InvalidValueError,
                       lambda: cls(nest(q, 1)), sig=(name, q), cls=name, q=q)
            mon.raises('cls.invalid', InvalidValueError,
                       lambda: a.__setitem__(q, 1), cls=name, q=q)
        mon.ok('cls.isolation', same(plain(a), before), cls=name, q=q)


def _has(o, p):
    try:
        for k in p:
            o = o[k]
        return True
    except KeyError:
        return False
