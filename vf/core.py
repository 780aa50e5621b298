"""Runner: seeded workloads, monitors, three-valued verdicts, evidence.

A check module provides

    PROPERTY, RULE, ASSUMPTIONS, REQUIRED
    plan(rng, tier)  -> list of JSON-able cases
    run(case, mon)   -> drives the real code; `mon` records the observations

Verdicts: violated (exit 1, with a replay file), held on what was observed
(exit 0), inconclusive (exit 3: a deciding monitor was never reached, a case hit
the watchdog, or the harness itself failed).
"""
import argparse
import collections
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

from . import cover

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EXIT_OK, EXIT_VIOLATION, EXIT_INCONCLUSIVE = 0, 1, 3


class Violation(Exception):
    def __init__(self, monitor, detail, key=None):
        Exception.__init__(self, '{}: {}'.format(monitor, detail))
        self.monitor, self.detail, self.key = monitor, detail, key


class Timeout(BaseException):
    pass


def jsonable(x, depth=0):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((jsonable(v, depth + 1) for v in x), key=str)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, float) and not math.isfinite(x):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def shorten(x, n=400):
    s = x if isinstance(x, str) else json.dumps(jsonable(x))
    return s if len(s) <= n else s[:n] + '...'


class Mon:
    """The monitor of one case. Every observation that is judged is counted."""

    def __init__(self):
        self.counts = collections.Counter()
        self.violations = []
        self.distinct = set()
        self.notes = collections.Counter()
        self.sample = None
        self.worst = {}

    # ------------------------------------------------------------- judgements
    def check(self, monitor, ok, detail='', key=None):
        """Judge one observation. Keep going after a violation."""
        self.counts[monitor] += 1
        if not ok:
            self.violations.append(
                {'monitor': monitor, 'detail': shorten(
                    detail() if callable(detail) else detail), 'key': key})
        return bool(ok)

    def demand(self, monitor, ok, detail='', key=None):
        """Judge one observation the rest of the case depends on."""
        if not self.check(monitor, ok, detail, key):
            raise Violation(monitor, 'demanded', key='__recorded__')

    def close(self, monitor, got, want, rtol=1e-7, atol=1e-9, key=None,
              what=''):
        import numpy as np
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            return self.check(monitor, False, 'not numeric: {}'.format(
                shorten(got)), key)
        if g.shape != w.shape:
            return self.check(monitor, False, '{} shape {} != {}'.format(
                what, g.shape, w.shape), key)
        if g.size == 0:
            return self.check(monitor, True)
        err = np.abs(g - w)
        lim = atol + rtol * np.abs(w)
        bad = ~(err <= lim)  # NaN counts as bad
        ratio = float(np.max(np.where(np.isfinite(err / lim), err / lim, 0.)))
        self.worst[monitor] = max(self.worst.get(monitor, 0.), ratio)
        if bad.any():
            i = int(np.argmax(bad.ravel()))
            return self.check(
                monitor, False, '{} at {}: observed {!r}, expected {!r} '
                '(rtol {}, atol {}; {} of {} off)'.format(
                    what, i, g.ravel()[i], w.ravel()[i], rtol, atol,
                    int(bad.sum()), bad.size), key)
        return self.check(monitor, True)

    # -------------------------------------------------------- calling target
    def call(self, label, fn, *args, **kwargs):
        """Call the code under test. An exception refutes the property."""
        try:
            return fn(*args, **kwargs)
        except (Timeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            raise Violation('no-exception', '{} raised {!r}\n{}'.format(
                label, e, tb[-1200:]))

    def raises(self, monitor, types, fn, *args, **kwargs):
        """The call must be rejected with one of the exception types."""
        try:
            r = fn(*args, **kwargs)
        except types:
            return self.check(monitor, True)
        except (Timeout, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return self.check(monitor, False,
                              'raised {!r} instead'.format(e))
        return self.check(monitor, False,
                          'accepted, returned {}'.format(shorten(repr(r), 200)))

    # ------------------------------------------------------------- evidence
    def seen(self, *key):
        """A distinct, non-trivial behaviour was observed in this case."""
        self.distinct.add(hashlib.sha1(
            json.dumps(jsonable(key)).encode()).hexdigest()[:16])

    def note(self, what, n=1):
        self.notes[what] += n


# ----------------------------------------------------------------------------
_check = None


def _alarm(signum, frame):
    raise Timeout()


def run_case(check, case, limit):
    mon = Mon()
    out = {'status': 'done'}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            check.run(case, mon)
    except Violation as v:
        if v.key != '__recorded__':
            mon.violations.append({'monitor': v.monitor,
                                   'detail': shorten(v.detail, 1800),
                                   'key': v.key})
            mon.counts[v.monitor] += 1
    except Timeout:
        out['status'] = 'timeout'
    except Exception as e:
        if isinstance(e, MemoryError) or (
                isinstance(e, (AttributeError, NameError, ImportError)) and
                'NoneType' not in str(e)):
            out['status'] = 'harness'
            out['error'] = traceback.format_exc(limit=-5)
            return _finish(out, mon, t0)
        # What the code under test returned could not even be looked at
        mon.violations.append({
            'monitor': 'observable', 'key': None,
            'detail': shorten('malformed observation: {!r}\n{}'.format(
                e, traceback.format_exc(limit=-5)), 1800)})
    finally:
        signal.alarm(0)
    return _finish(out, mon, t0)


def _finish(out, mon, t0):
    out.update(counts=dict(mon.counts), violations=mon.violations,
               distinct=list(mon.distinct), notes=dict(mon.notes),
               worst=mon.worst, sample=mon.sample, wall=time.time() - t0)
    return out


def _worker(batch):
    out = [(i, run_case(_check, case, limit)) for i, case, limit in batch]
    return out, cover.new()


def load_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('known', []) if k['property'] == prop]


def main(argv=None):
    global _check
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--only', type=int, help='run one case, in this process')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    t_start = time.time()
    try:
        cover.start(os.environ.get('VF_REPO', '/repo'))
        from . import target  # noqa: imports the code under test
        check = importlib.import_module('vf.checks.' + prop.lower())
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE property={} the code under test or the check '
              'could not be imported'.format(prop))
        return EXIT_INCONCLUSIVE
    _check = check
    limit = getattr(check, 'CASE_SECONDS', 150)

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        out = run_case(check, rec['case'], 10 * limit)
        print(json.dumps(out, indent=1, default=str))
        known = {k['key'] for k in load_findings(prop)}
        return EXIT_VIOLATION if any(
            v['key'] not in known for v in out['violations']) else \
            (EXIT_OK if out['status'] == 'done' else EXIT_INCONCLUSIVE)

    rng = random.Random('{}/{}/{}'.format(prop, a.seed, a.tier))
    cases = check.plan(rng, a.tier)
    cases = json.loads(json.dumps(jsonable(cases)))
    if a.only is not None:
        out = run_case(check, cases[a.only], 10 * limit)
        print(json.dumps(cases[a.only])[:2000])
        print(json.dumps(out, indent=1, default=str))
        return EXIT_OK

    budget = 480 if a.tier == 'quick' else 3 * 3600
    budget = int(os.environ.get('VF_BUDGET', budget))
    known_keys = {k['key'] for k in load_findings(prop)}
    results, status, executed = {}, collections.Counter(), set()
    ctx = mp.get_context('fork')
    jobs = [(i, c, limit) for i, c in enumerate(cases)]
    size = max(1, min(getattr(check, 'CHUNK', 1), len(jobs) // (4 * a.jobs)))
    jobs = [jobs[k:k + size] for k in range(0, len(jobs), size)]
    with ctx.Pool(a.jobs, maxtasksperchild=400) as pool:
        it = pool.imap_unordered(_worker, jobs)
        for _ in range(len(jobs)):
            left = budget - (time.time() - t_start)
            try:
                batch = it.next(timeout=max(left, 1))
            except StopIteration:
                break
            except mp.TimeoutError:
                status['not-run'] = len(cases) - len(results)
                break
            results.update(batch[0])
            executed |= batch[1]
            if os.environ.get('VF_FAIL_FAST') and any(
                    v['key'] not in known_keys for _, out in batch[0]
                    for v in out['violations']):
                break
        pool.terminate()

    counts, notes, worst = collections.Counter(), collections.Counter(), {}
    distinct, violations, samples = set(), [], []
    for i in sorted(results):
        out = results[i]
        status[out['status']] += 1
        counts.update(out['counts'])
        notes.update(out['notes'])
        distinct.update(out['distinct'])
        for k, v in out['worst'].items():
            worst[k] = max(worst.get(k, 0.), v)
        for v in out['violations']:
            violations.append((i, v))
        if out['status'] == 'harness':
            print('HARNESS case {}: {}'.format(i, out['error']))
        if len(samples) < 3 and out['distinct'] and not out['violations']:
            samples.append({'case': cases[i], 'observed': out['counts'],
                            'sample': out['sample']})

    known = {k['key']: k for k in load_findings(prop)}
    hit, new = collections.Counter(), []
    for i, v in violations:
        if v['key'] is not None and v['key'] in known:
            hit[v['key']] += 1
        else:
            new.append((i, v))

    missing = [m for m in check.REQUIRED if counts[m] < (
        check.REQUIRED[m] if isinstance(check.REQUIRED, dict) else 1)]

    evidence = {
        'property': prop, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(distinct),
            'rule': check.RULE,
            'samples': jsonable([{
                'case': json.loads(json.dumps(s['case'])) if len(json.dumps(
                    s['case'])) < 3000 else shorten(s['case'], 1500),
                'observed': s['observed'], 'sample': s['sample']}
                for s in samples]) or ['none'],
            'observations_judged': dict(sorted(counts.items())),
            'workload': dict(sorted(notes.items())),
            'largest_error_over_tolerance': {
                k: round(v, 6) for k, v in sorted(worst.items())},
            'lines_of_the_code_under_test_executed': {
                f: '{} of {}'.format(len(h), len(n))
                for f, (h, n) in sorted(cover.summary(
                    executed | cover.seen).items()) if h},
            'case_status': dict(status),
            'known_findings_observed': dict(hit)},
        'assumptions': check.ASSUMPTIONS,
        'violations': len(new),
        'wall_s': round(time.time() - t_start, 2)}
    if os.environ.get('VF_LINES'):
        with open(os.environ['VF_LINES'], 'w') as f:
            json.dump(sorted(executed | cover.seen), f)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.{}.{}'.format(prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))

    print('{} {} seed={}: {} cases, {} observations judged, {} distinct, '
          '{:.1f} s; {}'.format(
              prop, a.tier, a.seed, len(results), sum(counts.values()),
              len(distinct), time.time() - t_start, dict(status)))
    if a.verbose:
        print(json.dumps(evidence['coverage']['observations_judged'], indent=1))
        print(json.dumps(evidence['coverage']['workload'], indent=1))
        print(json.dumps(evidence['coverage']['largest_error_over_tolerance']))
        slow = sorted(results, key=lambda i: -results[i]['wall'])[:3]
        print('slowest', [(i, round(results[i]['wall'], 2)) for i in slow])
    for k in sorted(hit):
        print('KNOWN-FINDING: property={} {} ({} observations)'.format(
            prop, known[k]['what'], hit[k]))

    if new:
        outdir = os.path.join(HERE, 'out', prop)
        os.makedirs(outdir, exist_ok=True)
        shown = set()
        for i, v in new:
            if v['monitor'] in shown:
                continue
            shown.add(v['monitor'])
            path = os.path.join(outdir, 's{}-{}-{}-{}.json'.format(
                a.seed, a.tier, i, v['monitor'].replace('/', '_')[:40]))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'seed': a.seed, 'tier': a.tier,
                           'index': i, 'case': cases[i], 'violation': v}, f,
                          indent=1)
            print('VIOLATION property={} replay={}'.format(prop, path))
            print('  case {} monitor {}: {}'.format(
                i, v['monitor'], v['detail'][:1500]))
            if len(shown) >= 8:
                break
        print('{} violating observations in {} cases'.format(
            len(new), len({i for i, _ in new})))
        return EXIT_VIOLATION
    if status.get('timeout') or status.get('harness') or status.get('not-run'):
        print('INCONCLUSIVE property={} {}'.format(prop, dict(status)))
        return EXIT_INCONCLUSIVE
    if missing:
        print('INCONCLUSIVE property={} never reached: {}'.format(
            prop, missing))
        return EXIT_INCONCLUSIVE
    print('HELD on what was observed property={}'.format(prop))
    return EXIT_OK
