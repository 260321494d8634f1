"""Run-time verification harness: workload runner, monitors, evidence.

A property module (rt/props/<ID>.py) supplies

  RULE          text: how cases are drawn and what counts as non-trivial
  ASSUMPTIONS   list of strings
  EXPECT        set of monitor names which must all have fired at least once
                (otherwise the run is *inconclusive*, exit status 2)
  cases(tier)   list of JSON-able dicts, each with at least 'kind' and 'n'
  run(case, mon, rng)  drives the real sporco code, feeding the monitor

Each case is executed in one of several forked worker processes.  The monitor
records every evaluation of an oracle; a failing oracle, an unexpected
exception, a crashed worker or a case which exceeds its CPU time allowance is
a violation.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
CASE_CPU_LIMIT = 240      # CPU seconds for one case (typical: < 2 s)


class Skip(Exception):
    """Raised by a case which turns out to be outside the property's scope."""


class HarnessError(Exception):
    """Raised when the machinery itself (not sporco) misbehaves."""


class CpuLimit(BaseException):
    pass


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Monitor:
    """Collects oracle evaluations for one case."""

    def __init__(self, case):
        self.case = case
        self.counts = {}        # monitor name -> evaluations
        self.sigs = set()       # distinct non-trivial observations
        self.viol = []
        self.worst = {}         # monitor name -> worst normalised error
        self.nsamp = 0

    # -- bookkeeping -------------------------------------------------------
    def event(self, name, sig=None, n=1):
        self.counts[name] = self.counts.get(name, 0) + n
        if sig is not None:
            self.sigs.add(name + '|' + str(sig))

    def fail(self, name, **detail):
        if len(self.viol) < 20:
            self.viol.append({'monitor': name,
                              'detail': {k: _short(v) for k, v in
                                         detail.items()}})

    # -- oracles -----------------------------------------------------------
    def ok(self, name, cond, sig=None, **detail):
        """Boolean oracle"""
        self.event(name, sig)
        if not bool(cond):
            self.fail(name, **detail)
            return False
        return True

    def close(self, name, got, want, rtol=1e-8, atol=0.0, sig=None,
              shape=True, **detail):
        """Numerical agreement: ||got - want|| <= atol + rtol*scale, where
        scale is the max magnitude of the reference (at least that of got)."""
        self.event(name, sig)
        got = np.asarray(got)
        want = np.asarray(want)
        if shape and got.shape != want.shape:
            self.fail(name, got_shape=got.shape, want_shape=want.shape,
                      **detail)
            return False
        if got.size == 0:
            return True
        try:
            err = np.abs(got.astype(np.complex128) -
                         want.astype(np.complex128))
        except Exception as e:                              # broadcasting
            self.fail(name, error=e, got_shape=got.shape,
                      want_shape=want.shape, **detail)
            return False
        scale = np.max(np.abs(want)) if want.size else 0.0
        lim = atol + rtol * scale
        emx = float(np.max(err)) if np.all(np.isfinite(err)) else np.inf
        if lim > 0:
            self.worst[name] = max(self.worst.get(name, 0.0), emx / lim)
        if not emx <= lim:
            idx = np.unravel_index(int(np.argmax(np.where(
                np.isfinite(err), err, np.inf))), err.shape) \
                if err.shape else ()
            self.fail(name, max_err=emx, limit=lim, scale=float(scale),
                      at=tuple(int(i) for i in idx), **detail)
            return False
        return True

    def le(self, name, a, b, slack=0.0, sig=None, **detail):
        """Scalar inequality a <= b + slack"""
        self.event(name, sig)
        if not (float(a) <= float(b) + slack):
            self.fail(name, lhs=float(a), rhs=float(b), slack=slack,
                      **detail)
            return False
        if slack > 0 and float(a) > float(b):
            self.worst[name] = max(self.worst.get(name, 0.0),
                                   (float(a) - float(b)) / slack)
        return True

    def finite(self, name, *arrs, sig=None, **detail):
        self.event(name, sig)
        for i, a in enumerate(arrs):
            if a is None:
                continue
            a = np.asarray(a)
            if a.dtype.kind in 'fc' and not np.all(np.isfinite(a)):
                self.fail(name, arr=i, shape=a.shape,
                          nonfinite=int(np.sum(~np.isfinite(a))), **detail)
                return False
        return True

    def raises(self, name, exc, fn, sig=None, **detail):
        self.event(name, sig)
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(name, raised=e, expected=exc, **detail)
            return False
        self.fail(name, raised=None, expected=exc, **detail)
        return False


def case_rng(prop, case, seed):
    key = json.dumps([prop, case.get('kind'), case.get('n')], sort_keys=True)
    return np.random.default_rng([zlib.crc32(key.encode()), int(seed)])


def _on_cpu(signum, frame):
    raise CpuLimit()


def run_case(prop, mod, case, seed):
    """Execute one case; returns a result dict"""
    mon = Monitor(case)
    rng = case_rng(prop, case, seed)
    np.random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode())
                   ^ (seed & 0xffff))
    status = 'ok'
    old = signal.signal(signal.SIGPROF, _on_cpu)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                mod.run(case, mon, rng)
    except Skip as e:
        status = 'skip'
    except CpuLimit:
        mon.fail('nonterminating', cpu_s=CASE_CPU_LIMIT)
    except HarnessError as e:
        status = 'harness-error: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO + '/')]
        where = inrepo[-1] if inrepo else tb[-1]
        mon.fail('exception', error=e, where='%s:%s in %s' % (
            os.path.relpath(where.filename, REPO) if inrepo
            else where.filename, where.lineno, where.name),
            trace=''.join(traceback.format_list(tb[-4:])))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return {'case': case, 'status': status, 'counts': mon.counts,
            'sigs': sorted(mon.sigs), 'viol': mon.viol, 'worst': mon.worst,
            't': time.time() - t0}


LINES = {}           # file -> set of executed lines (of sporco)


def _watch_lines():
    """Record which lines of sporco are executed (each is reported once, so
    the cost is negligible)"""
    m = getattr(sys, 'monitoring', None)
    if m is None or m.get_tool(m.COVERAGE_ID):
        return
    root = os.path.join(REPO, 'sporco') + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            LINES.setdefault(code.co_filename, set()).add(n)
        return m.DISABLE
    m.use_tool_id(m.COVERAGE_ID, 'verif')
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def _worker(prop, modname, queue_path, idx, njobs, cases, seed, prog):
    try:
        mod = importlib.import_module(modname)
        if hasattr(mod, 'start'):
            mod.start()
        out = open(queue_path, 'wb')
        while True:
            with prog.get_lock():
                i = prog.value
                prog.value += 1
            if i >= len(cases):
                break
            pickle.dump(('start', i), out)
            out.flush()
            res = run_case(prop, mod, cases[i], seed)
            pickle.dump(('done', i, res), out)
            out.flush()
            if res['viol'] and os.environ.get('VERIF_FAILFAST'):
                prog.value = len(cases)
        pickle.dump(('lines', LINES), out)
        out.close()
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(77)
    sys.stdout.flush()
    os._exit(0)


def run_parallel(prop, modname, cases, seed, njobs):
    ctx = mp.get_context('fork')
    prog = ctx.Value('i', 0)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    procs = []
    results = {}
    crashes = []
    try:
        # restart workers which crash, so that one crash does not lose the
        # remaining cases
        gen = 0
        while True:
            procs = []
            for w in range(njobs):
                qp = os.path.join(tmp, 'q%d_%d' % (gen, w))
                p = ctx.Process(target=_worker, args=(
                    prop, modname, qp, w, njobs, cases, seed, prog))
                p.daemon = False
                p.start()
                procs.append((p, qp))
            for p, qp in procs:
                p.join()
            for p, qp in procs:
                started = None
                try:
                    with open(qp, 'rb') as f:
                        while True:
                            try:
                                rec = pickle.load(f)
                            except (EOFError, pickle.UnpicklingError):
                                break
                            if rec[0] == 'lines':
                                for fn, ls in rec[1].items():
                                    LINES.setdefault(fn, set()).update(ls)
                            elif rec[0] == 'start':
                                started = rec[1]
                            else:
                                results[rec[1]] = rec[2]
                                started = None
                except FileNotFoundError:
                    pass
                if p.exitcode != 0:
                    if p.exitcode == 77 and started is None:
                        raise HarnessError('worker failed to start')
                    crashes.append((started, p.exitcode))
                    if started is not None:
                        results[started] = {
                            'case': cases[started], 'status': 'crash',
                            'counts': {}, 'sigs': [], 'worst': {}, 't': 0.0,
                            'viol': [{'monitor': 'process-crash', 'detail':
                                      {'exitcode': str(p.exitcode)}}]}
            gen += 1
            if prog.value >= len(cases) or gen > 20:
                break
    finally:
        for p, qp in procs:
            if p.is_alive():
                p.kill()
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return [results[i] for i in sorted(results)], len(results)


def load_known():
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f).get('known', [])


def match_known(prop, viol, case, known):
    """A listed finding matches on property, monitor and case kind, plus every
    parameter of the case given under 'where' and the text in 'error'."""
    for kf in known:
        if kf['property'] != prop:
            continue
        if kf['monitor'] != viol['monitor']:
            continue
        if kf.get('kind') not in (None, case.get('kind')):
            continue
        if any(case.get(k) != v for k, v in kf.get('where', {}).items()):
            continue
        if 'error' in kf and kf['error'] not in json.dumps(viol['detail']):
            continue
        return kf
    return None


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--kind')
    ap.add_argument('--slow', action='store_true')
    args = ap.parse_args(argv)

    prop = args.prop
    modname = 'rt.props.%s' % prop
    t0 = time.time()
    _watch_lines()
    mod = importlib.import_module(modname)

    import sporco
    sfile = os.path.abspath(sporco.__file__)
    if not sfile.startswith(os.path.join(REPO, 'sporco')):
        print('ERROR: sporco imported from %s, not %s' % (sfile, REPO))
        return 2

    seed = args.seed
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        cases = [rp['case']]
        seed = rp['seed']
    else:
        cases = mod.cases(args.tier)
        if args.kind:
            cases = [c for c in cases if c['kind'] == args.kind]
    # identical (kind, n) would make two cases share a random stream
    ids = [(c['kind'], c['n']) for c in cases]
    assert len(set(ids)) == len(ids), 'duplicate case ids'

    njobs = args.jobs or min(8, os.cpu_count() or 1, len(cases))
    try:
        # interleave so that expensive kinds are spread over the run
        order = np.random.default_rng(0).permutation(len(cases))
        cases = [cases[i] for i in order]
        results, ndone = run_parallel(prop, modname, cases, seed, njobs)
    except HarnessError as e:
        print('ERROR: %s' % e)
        return 2

    counts, sigs, worst, kinds = {}, set(), {}, {}
    nviol = []
    herr = []
    nskip = 0
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs.update(r['sigs'])
        for k, v in r['worst'].items():
            worst[k] = max(worst.get(k, 0.0), v)
        kinds[r['case']['kind']] = kinds.get(r['case']['kind'], 0) + 1
        if r['status'] == 'skip':
            nskip += 1
        elif r['status'].startswith('harness-error'):
            herr.append(r['status'])
        for v in r['viol']:
            nviol.append((v, r['case']))

    known = load_known()
    unlisted, listed = [], {}
    for v, c in nviol:
        kf = match_known(prop, v, c, known)
        if kf is None:
            unlisted.append((v, c))
        else:
            listed.setdefault(kf['id'], (kf, 0))
            listed[kf['id']] = (kf, listed[kf['id']][1] + 1)

    wall = time.time() - t0
    evals = int(sum(counts.values()))
    print('%s tier=%s seed=%d: %d/%d cases (%d out of scope), %d oracle '
          'evaluations, %d distinct observations, %.1f s' % (
              prop, args.tier, seed, ndone, len(cases), nskip, evals,
              len(sigs), wall))
    for k in sorted(counts):
        print('  monitor %-34s fired %7d  worst/limit %s' % (
            k, counts[k], '%.3g' % worst[k] if k in worst else '-'))
    if args.slow:
        for r in sorted(results, key=lambda r: -r['t'])[:15]:
            print('  slow %.1f s %s' % (r['t'], r['case']))

    missing = sorted(set(getattr(mod, 'EXPECT', ())) - set(counts))
    if args.replay or args.kind:
        missing = []
    if not args.replay and not args.kind:
        os.makedirs(EVID, exist_ok=True)
        ev = {
            'property': prop, 'tier': args.tier, 'seed': seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': evals,
                'distinct_nontrivial': len(sigs),
                'rule': mod.RULE,
                'samples': [r['case'] for r in results[:5]],
                'cases_by_kind': kinds,
                'cases_out_of_scope': nskip,
                'monitor_events': counts,
                'worst_error_over_limit': {k: float('%.4g' % v) for k, v
                                           in worst.items()},
                'distinct_examples': sorted(sigs)[:10],
                'sporco_lines_executed': {
                    os.path.relpath(fn, REPO): len(ls)
                    for fn, ls in sorted(LINES.items())},
            },
            'wall_s': round(wall, 2),
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'violations': len(unlisted),
        }
        tmpf = os.path.join(EVID, '.%s.tmp' % prop)
        with open(tmpf, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmpf, os.path.join(EVID, '%s.json' % prop))

    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'w') as f:
            json.dump({os.path.relpath(fn, REPO): sorted(ls)
                       for fn, ls in LINES.items()}, f)

    for kid, (kf, n) in sorted(listed.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))

    if unlisted:
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v, c in unlisted:
            key = (v['monitor'], c['kind'])
            if key in seen:
                continue
            seen.add(key)
            h = hashlib.sha1(json.dumps([v['monitor'], c, seed],
                                        sort_keys=True).encode()
                             ).hexdigest()[:10]
            fn = os.path.join(rd, '%s-%s.json' % (prop, h))
            with open(fn, 'w') as f:
                json.dump({'property': prop, 'seed': seed, 'case': c,
                           'violation': v}, f, indent=1, default=str)
            if len(seen) <= 12:
                print('VIOLATION property=%s replay=%s' % (prop, fn))
                print('  monitor=%s case=%s' % (v['monitor'], c))
                for k, d in v['detail'].items():
                    print('    %s: %s' % (k, d))
        print('%d violations (%d distinct monitor/kind)' % (
            len(unlisted), len(seen)))
        return 1
    if herr:
        print('ERROR: %d harness errors, e.g. %s' % (len(herr), herr[0]))
        return 2
    if ndone < len(cases):
        print('ERROR: %d cases not executed' % (len(cases) - ndone))
        return 2
    if missing:
        print('INCONCLUSIVE: monitors never reached: %s' % missing)
        return 2
    return 0
