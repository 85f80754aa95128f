"""Runner: drives generated cases through the oracles, shrinks, writes replay and evidence."""
from . import boot  # noqa: F401  (first)

import argparse
import collections
import contextlib
import importlib
import json
import math
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback
import warnings
import zlib

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st  # noqa: F401

VERIF = boot.VERIF
SHRINK_S = 45          # time given to shrinking, per failing sub-check
BUDGET_S = {'quick': 420, 'thorough': 6 * 3600}   # generation stops (inconclusive) after that


class Violation(AssertionError):
    """The property does not hold on this case."""


def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(a):
    return np.array2string(np.asarray(a), threshold=12, precision=8)


def close(actual, expected, what, rtol=1e-8, atol=0.):
    """Same shape, same missing (NaN) entries, equal infinities, values within tolerance."""
    a = np.asarray(actual, dtype=float)
    e = np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        fail(f'{what}: shape {a.shape}, expected {e.shape}')
    if a.size == 0:
        return
    na, ne = np.isnan(a), np.isnan(e)
    if (na != ne).any():
        i = tuple(int(v) for v in np.argwhere(na != ne)[0])
        fail(f'{what}: at {i} got {a[i]!r}, expected {e[i]!r} '
             f'({int((na != ne).sum())} positions differ in being missing)')
    ok = ~na
    inf = ok & (np.isinf(a) | np.isinf(e))
    with np.errstate(all='ignore'):
        tol = atol + rtol * np.abs(e)
        bad = ok & ~inf & ~(np.abs(a - e) <= tol)
        bad |= inf & (a != e)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        fail(f'{what}: at {i} got {a[i]!r}, expected {e[i]!r} '
             f'({int(bad.sum())} of {a.size} values differ)')


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield


@contextlib.contextmanager
def recorded():
    """List of the UserWarnings raised inside (others are dropped)."""
    out = []
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        with np.errstate(all='ignore'):
            yield out
    out.extend(w for w in rec if issubclass(w.category, UserWarning)
               and not issubclass(w.category, (RuntimeWarning, DeprecationWarning)))


class Rec:
    """What a case did: classes it belongs to, and whether it was non-trivial."""

    def __init__(self, findings):
        self.tags = []
        self.nontrivial = False
        self.findings = findings
        self.known = []

    def tag(self, *names):
        self.tags.extend(str(n) for n in names)

    def good(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    def finding(self, key, msg):
        """A violation that the known-findings file may list under `key`."""
        if key in self.findings:
            self.known.append(key)
        else:
            fail(msg)


class Sub:
    """One executable check: `fn(case, rec)` over cases of `strategy`."""

    def __init__(self, name, strategy, fn, quick, thorough=None, rule=''):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 25
        self.rule = rule


def dumps(case):
    return json.dumps(case, sort_keys=True, default=_plain)


def _plain(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(repr(o))


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    with open(path) as f:
        data = json.load(f)
    return {e['key']: e for e in data['findings'] if e['property'] == prop}


def run_case(sub, case, findings):
    rec = Rec(findings)
    with quiet():
        sub.fn(case, rec)
    return rec


HARNESS = (hypothesis.errors.HypothesisException, MemoryError, KeyboardInterrupt)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = '; '.join(f'{os.path.basename(t.filename)}:{t.lineno} {t.name}' for t in tb[-4:])
    return f'{type(exc).__name__}: {exc} [{where}]'


def worker(args):
    """Run one shard of one sub-check; returns a plain dict."""
    prop, name, n, seed, tier = args
    sub = {s.name: s for s in load(prop).CHECKS}[name]
    findings = load_findings(prop)
    t0 = time.time()
    out = dict(name=name, evals=0, skipped=0, nontrivial=[], tags=collections.Counter(),
               samples=[], known=collections.Counter(), failure=None, error=None, rule=sub.rule)
    seen = set()
    state = dict(first=None, best=None, msg=None)
    history = collections.deque(maxlen=300)
    prefix = []

    def test(case):
        now = time.time()
        key = dumps(case)
        if now - t0 > BUDGET_S[tier] and state['first'] is None:
            out['skipped'] += 1
            return
        if state['first'] is not None and now - state['first'] > SHRINK_S and key != state['best']:
            return
        if state['first'] is None:
            out['evals'] += 1
        case = json.loads(key)
        try:
            rec = run_case(sub, case, findings)
        except HARNESS:
            raise
        except Exception as e:
            if state['first'] is None:
                state['first'] = now
                prefix.extend(history)
            state['best'], state['msg'] = key, describe(e)
            raise
        history.append(key)
        if state['first'] is not None:
            return
        for t in set(rec.tags):
            out['tags'][t] += 1
        for k in rec.known:
            out['known'][k] += 1
        if rec.nontrivial:
            h = zlib.crc32(key.encode()) ^ (len(key) << 32)
            if h not in seen:
                seen.add(h)
                if len(out['samples']) < 3:
                    out['samples'].append({'check': name, 'case': case})

    run = hypothesis.given(sub.strategy)(test)
    run = hypothesis.seed(seed)(run)
    run = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                   suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                          HealthCheck.large_base_example],
                   phases=[Phase.generate, Phase.shrink], print_blob=False,
                   verbosity=hypothesis.Verbosity.quiet)(run)
    try:
        with contextlib.redirect_stdout(sys.stderr):
            run()
    except BaseException as e:
        if state['best'] is None:
            out['error'] = ''.join(traceback.format_exception(e))[-3000:]
    if state['best'] is not None:
        out['failure'] = dict(case=json.loads(state['best']), msg=state['msg'],
                              prefix=[json.loads(p) for p in prefix])
    out['nontrivial'] = list(seen)
    out['wall'] = time.time() - t0
    shutil.rmtree('/tmp/verif_hypothesis_%d' % os.getpid(), ignore_errors=True)
    return out


def load(prop):
    return importlib.import_module('props.' + prop.lower())


def _replay_proc(args):
    prop, name, cases = args
    sub = {s.name: s for s in load(prop).CHECKS}[name]
    findings = load_findings(prop)
    msg = None
    for i, c in enumerate(cases):
        try:
            run_case(sub, c, findings)
        except Exception as e:
            msg = describe(e)
            if i == len(cases) - 1:
                return msg
    return msg


def fresh(fn, arg, ctx, timeout=300):
    with ctx.Pool(1) as p:
        return p.apply_async(fn, (arg,)).get(timeout)


def replay(prop, path):
    with open(path) as f:
        r = json.load(f)
    msg = _replay_proc((prop, r['check'], r.get('prefix', []) + [r['case']]))
    if msg is None:
        print(f'replay {path}: the property held')
        return 0
    print(msg)
    print(f'VIOLATION property={prop} replay={path}')
    return 1


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop
    tier = a.tier if a.tier in BUDGET_S else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    mod = load(prop)
    if a.replay:
        return replay(prop, a.replay)
    findings = load_findings(prop)
    subs = [s for s in mod.CHECKS if not a.only or s.name == a.only]
    jobs = []
    for s in subs:
        n = max(1, int(math.ceil((s.quick if tier == 'quick' else s.thorough) * a.scale)))
        shards = max(1, min(8, n // (40 if tier == 'quick' else 200)))
        for k in range(shards):
            sd = zlib.crc32(f'{prop}/{s.name}/{k}'.encode()) ^ (seed * 2654435761 % 2**32)
            jobs.append((prop, s.name, n // shards + (k < n % shards), sd, tier))
    ctx = mp.get_context('fork')
    procs = max(1, min(8, os.cpu_count() or 1, len(jobs)))
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        res = pool.map_async(worker, jobs, chunksize=1).get(BUDGET_S[tier] + 420)

    errors = [r for r in res if r['error']]
    failures = [r for r in res if r['failure']]
    evals = sum(r['evals'] for r in res)
    skipped = sum(r['skipped'] for r in res)
    per, tags, known = {}, collections.Counter(), collections.Counter()
    distinct = 0
    for s in subs:
        mine = [r for r in res if r['name'] == s.name]
        nt = set()
        for r in mine:
            nt.update(r['nontrivial'])
        per[s.name] = dict(evaluations=sum(r['evals'] for r in mine), distinct_nontrivial=len(nt),
                           rule=s.rule, wall_s=round(sum(r['wall'] for r in mine), 1))
        distinct += len(nt)
        c = collections.Counter()
        for r in mine:
            c.update(r['tags'])
            known.update(r['known'])
        per[s.name]['classes'] = dict(sorted(c.items()))
        tags.update({f'{s.name}:{k}': v for k, v in c.items()})
    samples = []
    for s in subs:
        mine = [x for r in res if r['name'] == s.name for x in r['samples']]
        samples.extend(mine[:2])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                            rule='; '.join(f'{s.name}: {s.rule}' for s in subs),
                            samples=samples, per_check=per, skipped_over_budget=skipped,
                            known_findings_seen={k: int(v) for k, v in known.items()},
                            exhaustive=False),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len({r['name'] for r in failures}))
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_plain)
    if a.v:
        print(json.dumps(per, indent=1))
    print(f'{prop} tier={tier} seed={seed}: {evals} cases, {distinct} distinct non-trivial, '
          f'{len(subs)} checks, {time.time() - t0:.1f} s'
          + (f', {skipped} skipped over budget' if skipped else ''))
    for k, e in findings.items():
        if known.get(k):
            print(f'KNOWN-FINDING: property={prop} {k}: {e["what"]} ({known[k]} cases)')
    done = set()
    for r in failures:
        if r['name'] in done:
            continue
        done.add(r['name'])
        f = r['failure']
        rep = dict(property=prop, check=r['name'], seed=seed, tier=tier, case=f['case'], error=f['msg'])
        try:
            again = fresh(_replay_proc, (prop, r['name'], [f['case']]), ctx)
            if again is None:
                # needs what ran before it: replay the whole history of the worker
                rep['prefix'] = f['prefix']
        except Exception as e:   # the replay is a convenience: never lose the report
            rep['replay_error'] = repr(e)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{prop}-{r["name"]}.json')
        with open(path, 'w') as fh:
            json.dump(rep, fh, indent=1, default=_plain)
        print(f'  {r["name"]}: {f["msg"]}')
        print(f'  case: {dumps(f["case"])[:600]}')
        print(f'VIOLATION property={prop} replay={path}')
    if failures:
        return 1
    for r in errors:
        print(f'ERROR in check {r["name"]}:\n{r["error"]}', file=sys.stderr)
    return 2 if errors else 0
