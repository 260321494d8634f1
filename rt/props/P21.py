"""Utilities: timers, dictionary tiling, example images, downloads"""
import os
import socket
import tempfile
import threading
import time
import urllib.error

import imageio.v3 as iio
import numpy as np

from sporco import util
from rt import gen

RULE = ('random histories of Timer / ContextTimer operations on several '
        'labels (nested contexts, exceptions, resets) checked against an '
        'interval model of real time; random dictionaries and tilings; '
        'random image trees and access options; downloads from a loopback '
        'server which stalls, breaks or refuses requests according to a '
        'random script. Distinct = (operation, state) and option sets.')
ASSUMPTIONS = ['the clock is not set while the timer check runs',
               'the loopback network works (download monitor only)']
KINDS = {'timer': 3, 'ctx': .5, 'tile': 4, 'images': 2, 'net': .15, 'cdict': .02}
EXPECT = {'elapsed', 'elapsed-current', 'labels', 'unknown-label', 'context',
          'context-own', 'context-raise', 'timer-table', 'tile',
          'tile-inputs',
          'image-list', 'image-groups', 'image', 'image-dtype',
          'image-missing', 'idle-cpus', 'convdicts', 'download',
          'download-tries', 'download-fail'}


def cases(tier):
    k = 200 if tier == 'quick' else 600
    return [{'kind': kd, 'n': i} for kd, m in KINDS.items()
            for i in range(max(1, int(k * m)))]


def run(case, mon, rng):
    globals()['go_' + case['kind']](mon, rng)


# --------------------------------------------------------------------------
class Model:
    """Bounds on the state of a Timer. For each label: bounds of the
    accumulated time and of the start time of the current period"""

    def __init__(self, dflt, alll):
        self.acc = {}
        self.run = {}
        self.dflt, self.alll = dflt, alll

    def names(self, lbl, new):
        if lbl is None:
            lbl = self.dflt
        if lbl == self.alll and not new:
            return list(self.acc)
        return list(lbl) if isinstance(lbl, (list, tuple)) else [lbl]

    def start(self, lbl, a, b):
        for v in self.names(lbl, True):
            self.acc.setdefault(v, (0., 0.))
            if self.run.get(v) is None:
                self.run[v] = (a, b)

    def stop(self, lbl, a, b):
        for v in self.names(lbl, False):
            r = self.run.get(v)
            if r is not None:
                lo, hi = self.acc[v]
                self.acc[v] = (lo + max(0., a - r[1]), hi + b - r[0])
                self.run[v] = None

    def reset(self, lbl):
        for v in self.names(lbl, False):
            self.acc[v] = (0., 0.)
            self.run[v] = None

    def bounds(self, v, total, a, b):
        lo = hi = 0.
        r = self.run.get(v)
        if r is not None:
            lo, hi = max(0., a - r[1]), b - r[0]
        if total and v in self.acc:
            lo, hi = lo + self.acc[v][0], hi + self.acc[v][1]
        return lo, hi


EPS = 2e-5
now = time.perf_counter


def timed(fn, *args, **kw):
    a = now()
    r = fn(*args, **kw)
    return r, a, now()


class Boom(Exception):
    pass


def go_timer(mon, rng):
    cfg = int(rng.integers(3))
    dflt, alll, kw = 'main', 'all', {}
    if cfg:
        dflt, alll = 'dd', 'every'
        kw = {'dfltlbl': dflt, 'alllbl': alll}
    lb = ['a', 'b', 'solve', dflt]
    init = [None, 'a', ['a', 'b'], ('b', 'solve')][int(rng.integers(4))]
    t = util.Timer(init, **kw)
    m = Model(dflt, alll)
    for v in ([] if init is None else [init] if isinstance(init, str)
              else init):
        m.acc[v] = (0., 0.)
        m.run[v] = None

    def check():
        for v in lb + [None]:
            nm = dflt if v is None else v
            for tot in (True, False):
                if v is not None and nm not in m.acc:
                    mon.raises('unknown-label', KeyError,
                               lambda: t.elapsed(v))
                    continue
                k = {} if tot and rng.random() < .5 else {'total': tot}
                e, a, b = timed(t.elapsed, v, **k)
                lo, hi = m.bounds(nm, tot, a, b)
                mon.ok('elapsed' if tot else 'elapsed-current',
                       lo - EPS <= e <= hi + EPS, e=e, lo=lo, hi=hi,
                       label=v, total=tot, log=log[-8:])
        mon.ok('labels', sorted(t.labels()) == sorted(m.acc),
               got=list(t.labels()), want=list(m.acc))

    def pick(known):
        u = rng.random()
        ks = [v for v in lb if v in m.acc] if known else lb
        if u < .2 and (not known or dflt in m.acc):
            return None
        if u < .35 and known:
            return alll
        if u < .6 and ks:
            return [ks[int(i)] for i in rng.permutation(len(ks))[
                :int(rng.integers(1, len(ks) + 1))]]
        return ks[int(rng.integers(len(ks)))] if ks else alll

    log = []
    for _ in range(12):
        time.sleep(float(rng.uniform(.0005, .003)))
        op = str(rng.choice(['start', 'start', 'stop', 'stop', 'reset',
                             'ctx', 'bad']))
        if op == 'start':
            v = pick(False)
            _, a, b = timed(t.start, *([] if v is None else [v]))
            m.start(v, a, b)
        elif op == 'stop':
            v = pick(True)
            _, a, b = timed(t.stop, *([] if v is None else [v]))
            m.stop(v, a, b)
        elif op == 'reset':
            v = pick(True)
            t.reset(*([] if v is None else [v]))
            m.reset(v)
        elif op == 'ctx':
            act = 'StopStart' if rng.random() < .5 else 'StartStop'
            v = [None, 'a', 'b'][int(rng.integers(3))]
            nm = dflt if v is None else v
            if act == 'StopStart' and nm not in m.acc:
                continue
            exc = bool(rng.random() < .4)
            first, last = (m.start, m.stop) if act == 'StartStop' else \
                (m.stop, m.start)
            c = util.ContextTimer(t, v, action=act) if act == 'StopStart' \
                or rng.random() < .5 else util.ContextTimer(t, label=v)
            r = caught = None
            a0 = now()
            try:
                with c as r:
                    first(v, a0, now())
                    time.sleep(float(rng.uniform(.0005, .003)))
                    (e, a, b) = timed(c.elapsed)
                    lo, hi = m.bounds(nm, True, a, b)
                    mon.ok('context', lo - EPS <= e <= hi + EPS, e=e, lo=lo,
                           hi=hi, sig=(act, exc))
                    if rng.random() < .3:
                        w = util.ContextTimer(t, 'solve')
                        w.__enter__()
                        m.start('solve', now() - 5e-5, now())
                        w.__exit__(None, None, None)
                        m.stop('solve', now() - 5e-5, now())
                        m.acc['solve'] = (max(0, m.acc['solve'][0] - 1e-3),
                                          m.acc['solve'][1] + 1e-3)
                    a1 = now()
                    if exc:
                        raise Boom
            except Boom as e:
                caught = e
            last(v, a1, now())
            mon.ok('context-raise', (caught is not None) == exc and r is c)
        else:
            f = (t.stop, t.reset)[int(rng.integers(2))]
            mon.raises('unknown-label', KeyError, lambda: f('nope'))
            mon.raises('unknown-label', ValueError,
                       lambda: util.ContextTimer(t, action='go'))
            v = None
        log.append((op, v))
        mon.event('timer-op', sig=(op, type(v).__name__, tuple(
            sorted(k for k in m.run if m.run[k])), cfg > 0))
        check()
    rows = str(t).splitlines()[2:]
    now_run = {r.split()[0]: 'Stopped' not in r for r in rows}
    mon.ok('timer-table', now_run == {v: m.run.get(v) is not None
                                      for v in m.acc}, table=str(t))
    a = now()
    for r in str(t).splitlines()[2:]:
        f = r.split()
        lo, hi = m.acc[f[0]]
        mon.ok('timer-table', lo * .99 - EPS <= float(f[1]) <=
               hi * 1.01 + EPS, row=r)


def go_ctx(mon, rng):
    """Contexts which have timers of their own"""
    lbl = [None, 'z'][int(rng.integers(2))]
    cs = [util.ContextTimer(*([None] if rng.random() < .3 else []),
                            **({} if lbl is None else {'label': lbl}))
          for _ in range(3)]
    nm = 'main' if lbl is None else lbl
    ms = [Model('main', 'all') for _ in cs]
    mon.ok('context-own', len({id(c.timer) for c in cs}) == 3)
    for _ in range(6):
        i = int(rng.integers(3))
        c, m = cs[i], ms[i]
        a = now()
        with c:
            m.start(nm, a, now())
            time.sleep(float(rng.uniform(.0005, .002)))
            for tot in (True, False):
                e, a, b = timed(c.elapsed, tot)
                lo, hi = m.bounds(nm, tot, a, b)
                mon.ok('context-own', lo - EPS <= e <= hi + EPS, e=e, lo=lo,
                       hi=hi, sig=(lbl, tot))
            a = now()
        m.stop(nm, a, now())
        time.sleep(.0005)
        for c, m in zip(cs, ms):
            if nm not in m.acc:
                mon.ok('context-own', nm not in c.timer.labels())
                continue
            e, a, b = timed(c.elapsed)
            lo, hi = m.bounds(nm, True, a, b)
            mon.ok('context-own', lo - EPS <= e <= hi + EPS, e=e, lo=lo,
                   hi=hi, sig=(lbl, 'after'))
            mon.ok('context-own', c.elapsed(total=False) == 0.)


# --------------------------------------------------------------------------
def go_tile(mon, rng):
    M = int(rng.integers(1, 14))
    r, c = (int(v) for v in rng.integers(1, 6, 2))
    C = int(rng.integers(1, 4))
    k = str(rng.choice(['dense', 'densecol', '3d', '4d', '3dsz', '4dsz']))
    dt = np.dtype([np.float64, np.float32][int(rng.integers(2))])
    sz = None
    sizes = [(r, c)] * M
    if k == 'dense':
        D = gen.rand(rng, (r * c, M), dt)
        sz = (r, c)
        A = D.reshape(r, c, M)
    elif k == 'densecol':
        D = gen.rand(rng, (r * c * C, M), dt)
        sz = (r, c, C)
        A = D.reshape(r, c, C, M)
    elif k == '3d':
        A = D = gen.rand(rng, (r, c, M), dt)
    elif k == '4d':
        A = D = gen.rand(rng, (r, c, C, M), dt)
    else:
        sz, sizes = [], []
        for _ in range(int(rng.integers(1, 4))):
            s = (int(rng.integers(1, r + 1)), int(rng.integers(1, c + 1)))
            n = int(rng.integers(1, 5))
            sz.append(s + ((n,) if k == '3dsz' else (C, n)))
            sizes += [s] * n
        sz = tuple(sz)
        M = len(sizes)
        A = D = gen.rand(rng, (r, c, M) if k == '3dsz' else (r, c, C, M), dt)
    if np.ptp(D) == 0:
        return
    D = gen.layout(rng, D)
    D0 = D.copy()
    im = util.tiledict(D, sz) if sz is not None else util.tiledict(D)
    A = A.astype(float)
    A = (A - A.min())
    A = A / A.max()
    R, Cc = max(s[0] for s in sizes), max(s[1] for s in sizes)
    Vr = int(np.sqrt(M))
    Vc = -(-M // Vr)
    shp = (Vr * R + Vr - 1, Vc * Cc + Vc - 1) + A.shape[2:-1]
    ok = mon.ok('tile', im.shape == shp, got=im.shape, want=shp, kd=k)
    mon.ok('tile-inputs', np.array_equal(D, D0))
    if not ok:
        return
    w = np.ones(shp)
    for m in range(M):
        i, j = divmod(m, Vc)
        s = sizes[m]
        w[i * (R + 1):i * (R + 1) + s[0],
          j * (Cc + 1):j * (Cc + 1) + s[1]] = A[:s[0], :s[1], ..., m]
    mon.close('tile', im, w, atol=1e-5 if dt.char == 'f' else 1e-12,
              sig=(k, M, dt), kd=k)


# --------------------------------------------------------------------------
def go_images(mon, rng):
    import scipy.ndimage as sn
    with tempfile.TemporaryDirectory() as root:
        tree = {}
        g1, g2 = [('g1', 'g2'), ('photo set', '.h'),
                  ('g', 'gg')][int(rng.integers(3))]
        for g in ('', g1, os.path.join(g1, 'sub'), g2, 'none'):
            if g and rng.random() < .3:
                continue
            os.makedirs(os.path.join(root, g), exist_ok=True)
            for i in range(int(rng.integers(0 if g else 1, 3))):
                if g == 'none':
                    break
                shp = tuple(int(v) for v in rng.integers(5, 12, 2))
                if rng.random() < .6:
                    shp += (3,)
                im = rng.integers(0, 256, shp).astype(np.uint8)
                nm = 'im%d.png' % i
                iio.imwrite(os.path.join(root, g, nm), im)
                tree[(g, nm)] = im
            with open(os.path.join(root, g, 'readme.txt'), 'w') as f:
                f.write('not an image\n')
        o = {}
        if rng.random() < .5:
            o['scaled'] = bool(rng.integers(2))
        if rng.random() < .5:
            o['dtype'] = [np.float32, np.float64, np.uint8, np.int16,
                          np.dtype('f4'), 'uint16'][int(rng.integers(6))]
        if rng.random() < .3:
            o['zoom'] = float(rng.choice([.5, 2.]))
        if rng.random() < .3:
            o['gray'] = bool(rng.integers(2))
        # The same directory specified in different ways
        pth = [root, root + os.sep, os.path.relpath(root),
               os.path.relpath(root) + os.sep, root + os.sep + '.',
               os.path.join(root, 'none', os.pardir) if
               os.path.isdir(os.path.join(root, 'none')) else root
               ][int(rng.integers(6))]
        ei = util.ExampleImages(pth=pth, **o)
        mon.ok('image-list', sorted(ei.images()) == sorted(
            os.path.join(*k) for k in tree), got=ei.images(), want=list(tree))
        gr = sorted({k[0] for k in tree})
        mon.ok('image-groups', sorted(ei.groups()) == gr, got=ei.groups())
        for g in gr:
            mon.ok('image-groups', sorted(ei.groupimages(g)) == sorted(
                os.path.join(*k) for k in tree if k[0] == g))
        for (g, nm), im in tree.items():
            p = {}
            for k, v in (('scaled', [True, False]), ('dtype', [
                    np.float32, np.float64, np.uint8, np.int32, np.int16,
                    np.uint32, np.int64, 'uint16', np.dtype('f8')]),
                    ('zoom', [.5, 2.]), ('gray', [True, False]),
                    ('idxexp', [np.s_[1:4], np.s_[:, ::2]])):
                if rng.random() < .3:
                    p[k] = v[int(rng.integers(len(v)))]
            e = {k: p.get(k, o.get(k)) for k in
                 ('scaled', 'dtype', 'zoom', 'gray', 'idxexp')}
            gray = e['gray'] and im.ndim == 3
            if e['gray'] and not gray:
                p['gray'] = e['gray'] = False
            dt = np.dtype(np.uint8 if e['dtype'] is None else e['dtype'])
            if e['scaled'] and dt.kind in 'iu':
                dt = np.dtype(np.float32)
            w = im.astype(float) / (255. if e['scaled'] else 1.)
            if e['idxexp'] is not None:
                w = w[e['idxexp']]
            if e['zoom'] is not None:
                zz = (e['zoom'],) * 2 + (1,) * (w.ndim - 2)
                w = sn.zoom(w, zz)
                if dt.kind in 'iu':
                    w = np.clip(w, np.iinfo(dt).min, np.iinfo(dt).max)
            if gray:
                w = w @ np.array([.299, .587, .114])
            fn = {'fname': nm, 'group': g} if g and rng.random() < .5 else \
                {'fname': os.path.join(g, nm)}
            got = ei.image(**fn, **p)
            sg = (e['scaled'], dt, e['zoom'], bool(gray),
                  e['idxexp'] is not None)
            mon.ok('image-dtype', got.dtype == dt, got=got.dtype, want=dt,
                   sg=sg)
            mon.close('image', got, w, atol=2.01 if dt.kind in 'iu'
                      else 1e-4 * (1 if e['scaled'] else 255), sig=sg,
                      sg=sg)
        mon.raises('image-missing', IOError, lambda: ei.image('nope.png'))
    if rng.random() < .2:
        k = int(rng.integers(1, 20))
        v = util.idle_cpu_count(k)
        mon.ok('idle-cpus', isinstance(v, int) and
               k <= v <= max(k, os.cpu_count()), v=v, k=k)
        v = util.idle_cpu_count()
        mon.ok('idle-cpus', 1 <= v <= os.cpu_count(), v=v)


def go_cdict(mon, rng):
    for k, v in util.convdicts().items():
        pre, sz = k.split(':')
        szs = [[int(x) for x in s.split('x')] for s in sz.split(',')]
        want = tuple(max(s[i] for s in szs) for i in range(len(szs[0]) - 1)) \
            + (sum(s[-1] for s in szs),)
        mon.ok('convdicts', v.shape == want, k=k, got=v.shape, sig=k)
        mon.finite('convdicts', v)
    # a second call returns independent arrays
    a, b = util.convdicts(), util.convdicts()
    for k in a:
        a[k][...] = 0
        mon.ok('convdicts', np.any(b[k]))


# --------------------------------------------------------------------------
class Server(threading.Thread):
    """Serves one scripted behaviour per connection"""

    def __init__(self, script, body):
        super().__init__(daemon=True)
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(20)
        self.port = self.s.getsockname()[1]
        self.script, self.body = list(script), body
        self.log = []
        self.end = threading.Event()
        self.conns = []

    def run(self):
        while not self.end.is_set():
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            act = self.script[min(len(self.log), len(self.script) - 1)]
            self.log.append(act)
            threading.Thread(target=self.serve, args=(c, act),
                             daemon=True).start()

    def serve(self, c, act):
        try:
            c.settimeout(60)
            req = b''
            while b'\r\n\r\n' not in req:
                d = c.recv(4096)
                if not d:
                    return
                req += d
            if act == 'stall':
                self.end.wait(120)
                return
            if act == 'drop':
                return
            hd = b'HTTP/1.0 %s\r\nContent-Length: %d\r\n\r\n'
            if act == '404':
                c.sendall(hd % (b'404 Not Found', 2) + b'no')
                return
            c.sendall(hd % (b'200 OK', len(self.body)))
            if act in ('half', 'trunc'):
                c.sendall(self.body[:len(self.body) // 2])
                if act == 'trunc':
                    return
                self.end.wait(120)
                return
            n = int(len(self.body) / 3) + 1
            for i in range(0, len(self.body), n):
                c.sendall(self.body[i:i + n])
                time.sleep(.002)
        except OSError:
            pass
        finally:
            c.close()

    def close(self):
        self.end.set()
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()
        self.join(10)


def go_net(mon, rng):
    for v in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY'):
        os.environ.pop(v, None)
    body = rng.integers(0, 256, int(rng.integers(1, 5000))).astype(
        np.uint8).tobytes()
    nbad = int(rng.integers(0, 3))
    script = [str(rng.choice(['stall', 'half'])) for _ in range(nbad)]
    last = str(rng.choice(['404', 'drop', 'trunc', 'ok'],
                          p=[.2, .1, .1, .6]))
    script.append(last)
    mx = int(rng.integers(1, 4))
    srv = Server(script, body)
    srv.start()
    url = 'http://127.0.0.1:%d/f' % srv.port
    # long timeout when no stall is scripted so that load cannot cause one
    tmo = 60 if nbad == 0 else 3
    err = got = None
    try:
        kw = {} if mx == 3 and rng.random() < .5 else {'maxtry': mx}
        got = util.netgetdata(url, timeout=tmo, **kw).read()
    except urllib.error.URLError as e:
        err = e
    except Exception as e:
        if last not in ('drop', 'trunc') or nbad >= mx:
            mon.fail('download', error=repr(e), script=script, mx=mx)
            return
        err = e
    finally:
        srv.close()
    sg = (tuple(script), mx)
    n = len(srv.log)
    if nbad < mx:
        mon.ok('download-tries', n == nbad + 1, n=n, sg=sg)
        if last == 'ok':
            mon.ok('download', got == body, sig=sg, err=err, sg=sg)
        elif last in ('drop', 'trunc'):
            mon.ok('download-fail', err is not None and got is None, sig=sg,
                   err=err, sg=sg)
        else:
            mon.ok('download-fail', err is not None and
                   getattr(err, 'code', None) == 404, err=err, sig=sg, sg=sg)
    else:
        mon.ok('download-tries', n == mx, n=n, sg=sg)
        mon.ok('download-fail', err is not None, sig=sg, sg=sg)
    # nobody listens on the port any more
    if rng.random() < .3:
        orig, cnt = socket.create_connection, []

        def conn(*a, **k):
            cnt.append(a)
            return orig(*a, **k)
        socket.create_connection = conn
        try:
            mon.raises('download-fail', urllib.error.URLError,
                       lambda: util.netgetdata(url, timeout=tmo))
        finally:
            socket.create_connection = orig
        mon.ok('download-tries', len(cnt) <= 1, n=len(cnt), sg='refused')
    mon.raises('download-fail', ValueError,
               lambda: util.netgetdata(url, maxtry=0))
