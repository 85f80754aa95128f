"""C09 - analyses are pure functions: inputs and earlier results are left alone, repeats agree."""
import copy
import dataclasses
import pickle
import warnings
import numpy as np
from vf.core import Sub, check, recorded, st
from vf import gen, ref
from vf.sched import Interleaved
from vf.e2e import FORMALISMS, GAM, NORM, fd

from pymultifracs import estimation, fractal_analysis, mfa, psd, utils
from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full
from pymultifracs.cumulants import Cumulants
from pymultifracs.mfspectrum import MultifractalSpectrum
from pymultifracs.structurefunction import StructureFunction
from pymultifracs.wavelet import wavelet_analysis


def snap(o, path='', out=None):
    """Every number reachable from a result, copied: {path: bytes-comparable array}."""
    out = {} if out is None else out
    if o is None or isinstance(o, (str, bool)):
        out[path] = o
    elif isinstance(o, (int, float, np.generic, np.ndarray)):
        out[path] = np.array(o, copy=True)
    elif isinstance(o, dict):
        for k in o:
            snap(o[k], f'{path}[{k}]', out)
    elif dataclasses.is_dataclass(o):
        for f in dataclasses.fields(o):
            try:
                v = getattr(o, f.name)
            except AttributeError:
                continue
            snap(v, f'{path}.{f.name}', out)
    elif hasattr(o, '_fields'):
        for f in o._fields:
            snap(getattr(o, f), f'{path}.{f}', out)
    elif isinstance(o, (tuple, list)):
        for i, v in enumerate(o):
            snap(v, f'{path}[{i}]', out)
    return out


def equal(a, b, what):
    check(set(a) == set(b), f'{what}: {sorted(set(a) ^ set(b))[:4]}')
    for k in a:
        x, y = a[k], b[k]
        ok = (np.array_equal(x, y, equal_nan=True) if isinstance(x, np.ndarray) and isinstance(y, np.ndarray)
              and x.dtype.kind in 'fc' else np.array_equal(x, y))
        check(ok, lambda: f'{what}: {k or "value"} was {x} and is {y}')


def surroundings():
    """Settings of the process that an analysis has no business changing."""
    return {'the handling of numerical errors': np.geterr(), 'the warning filters': list(warnings.filters),
            'the printing of arrays': {k: str(v) for k, v in np.get_printoptions().items()}}


class World:
    def __init__(self, c):
        n = c['n']
        self.X = [gen.build(dict(n=n, R=r, kind=k, seed=(c['seed'] + i) % 2**31, amp=1.))
                  for i, (k, r) in enumerate(c['signals'])]
        self.q = np.array(c['q'])
        self.listed = list(c['q'])
        self.W = []          # (transform, case of it, index of the signal)
        self.psd = []

    def run(self, op, a):
        """-> result of one call, or None when the op has nothing to work on."""
        i = a['i'] % len(self.X)
        X = self.X[i]
        if op == 'wavelet':
            p = gen.pval(a['p'])
            if ref.n_scales(len(X), ref.filter_len(a['wt']), True) < 2:
                return None
            W = wavelet_analysis(X, p_exp=p, wt_name=a['wt'], j1=1, j2=a['j2'], gamint=a['gamint'],
                                 normalization=a['norm'], weighted=a['weighted'])
            self.W.append((W, i))
            return W
        if op == 'full':
            if ref.n_scales(len(X), ref.filter_len(a['wt']), True) < 2:
                return None
            return mfa.mf_analysis_full(X, 1, a['j2'], normalization=a['norm'], gamint=a['gamint'],
                                        weighted=a['weighted'], wt_name=a['wt'], p_exp=gen.pval(a['p']),
                                        q=self.listed if a['k'] % 2 else self.q, n_cumul=a['m'],
                                        minimal=a['flag'])
        if op == 'welch':
            x = X if X.ndim == 1 else X[:, 0]
            r = psd.welch_estimation(x, 10., n_fft=min(64, len(x)), seg_size=None)
            self.psd.append(r)
            return r
        if op == 'wtpsd':
            if ref.n_scales(len(X), 4, False) < 2:
                return None
            r = psd.wavelet_estimation(X, 10., 2)
            self.psd.append(r)
            return r
        if op == 'beta':
            if not self.psd:
                return None
            P = self.psd[a['k'] % len(self.psd)]
            return fractal_analysis.estimate_beta(P.freq, P.psd if P.psd.ndim > 1 else P.psd[:, None], (0., 8.),
                                                  'log' if a['flag'] else 'log2')
        if op == 'qlog':
            return utils.build_q_log(0.1, 5., 1 + a['m'])
        if op == 'bifull':
            x, y = (self.X[k % len(self.X)] for k in (a['i'], a['k']))
            x, y = (v if v.ndim == 1 else v[:, :1] for v in (x, y))
            if ref.n_scales(len(x), ref.filter_len(a['wt']), True) < 2:
                return None
            return bivariate_analysis_full(x, y, 1, a['j2'], p_exp=gen.pval(a['p']), wt_name=a['wt'],
                                           gamint=a['gamint'], q1=self.q, q2=self.q, n_cumul=a['m'])
        if not self.W:
            return None
        W, _ = self.W[a['k'] % len(self.W)]
        j2 = W.j2_eff
        if j2 < 2:
            return None
        src = W.wt_leaders if a['flag'] and W.wt_leaders is not None else W.wt_coefs
        j1 = 1 + a['i'] % (j2 - 1)
        if op == 'mfa':
            return mfa.mf_analysis(W.wt_coefs, W.wt_leaders, j2, j1, a['weighted'], a['m'],
                                   self.listed if a['i'] % 2 else self.q)
        if op == 'minimal':
            return mfa.minimal_mf_analysis(W.wt_coefs, W.wt_leaders, j2, j1, a['weighted'], a['m'], self.q)
        if op == 'structure':
            r = StructureFunction(src, self.q, j1, j2, a['weighted'])
            r.get_intercept()
            return r
        if op == 'cumulants':
            r = Cumulants(src, a['m'], j1, j2, a['weighted'])
            return r, r.c1, r.C2, r.M, r.c2
        if op == 'spectrum':
            return MultifractalSpectrum(src, j1, j2, a['weighted'], self.q)
        if op == 'hmin':
            return estimation.estimate_hmin(src, j1, j2, a['weighted'], return_y=True)
        if op == 'hurst':
            return estimation.compute_hurst(src, j1, j2, a['weighted'])
        if op == 'bivariate':
            V, _ = self.W[a['i'] % len(self.W)]
            for U in (W, V):
                if U.wt_coefs.nrep != 1:
                    return None
            if not all(list(x.values) == list(y.values) and all(np.array_equal(x.nj[j], y.nj[j]) for j in x.nj)
                       and x.gamint == y.gamint and x.formalism == y.formalism
                       for x, y in ((W.wt_coefs, V.wt_coefs), (W.wt_leaders, V.wt_leaders))
                       if x is not None and y is not None):
                return None
            r = bivariate_analysis(W, V, 1, a['weighted'], a['m'], self.q, self.q)
            return r, r.dwt.cumulants.compute_legendre((0, 1.), 5)
        raise ValueError(op)


def history(c, rec):
    def play(check_all):
        w = World(c)
        inputs = snap(w.X), snap([w.q, w.listed])
        kept, snaps = [], []
        state = np.random.get_state()[1].copy()
        settings = surroundings()
        for op, a in c['ops']:
            r = w.run(op, a)
            kept.append(r)
            snaps.append(snap(r))
            if check_all:
                equal(inputs[0], snap(w.X), f'{op} changed a signal')
                equal(inputs[1], snap([w.q, w.listed]), f'{op} changed the list of exponents')
                for i, (old, s) in enumerate(zip(kept[:-1], snaps[:-1])):
                    equal(s, snap(old), f'{op} changed the earlier result {i} of {c["ops"][i][0]}')
                if r is not None:
                    equal(snaps[-1], snap(w.run(op, a)) if op not in ('wavelet', 'welch', 'wtpsd') else snaps[-1],
                          f'{op} repeated at once')
        check(np.array_equal(state, np.random.get_state()[1]), 'the analysis consumed random numbers')
        now = surroundings()
        for k in settings:
            check(now[k] == settings[k], f'the analysis changed {k}')
        return snaps
    # settings unlike those an analysis may be tempted to choose
    with recorded(), np.errstate(all='warn'):
        first, again = play(True), play(False)
    for i, (a, b) in enumerate(zip(first, again)):
        equal(a, b, f'call {i} ({c["ops"][i][0]}) repeated in a second run')
    done = [op for (op, _), s in zip(c['ops'], first) if list(s) != ['']]
    rec.tag(*done)
    rec.good(len(done) >= 3)


def _arrays(o, out):
    """Every array reachable from a result."""
    if isinstance(o, np.ndarray):
        out.append(o)
    elif isinstance(o, dict):
        for v in o.values():
            _arrays(v, out)
    elif isinstance(o, (tuple, list)):
        for v in o:
            _arrays(v, out)
    elif dataclasses.is_dataclass(o):
        _arrays(vars(o), out)
    return out


EDITS = {
    'reverse': lambda x, r: x[::-1].copy(),
    'swap': lambda x, r: x[np.arange(len(x)) ^ 1] if len(x) % 2 == 0 else np.append(x[np.arange(len(x) - 1) ^ 1], x[-1:], axis=0),
    'shuffle': lambda x, r: x[r.permutation(len(x))],
    'negate': lambda x, r: -x,
    'one': lambda x, r: np.where((np.arange(len(x)) == r.randint(len(x))).reshape((-1,) + (1,) * (x.ndim - 1)), x + 1, x),
    'bump': lambda x, r: x + (np.arange(len(x)) % 7 == 3).reshape((-1,) + (1,) * (x.ndim - 1)),
    'scale': lambda x, r: x * 1.5,
    'other': lambda x, r: np.cumsum(r.standard_normal(x.shape), axis=0),
}


def in_place(c, rec):
    """The owner of an array changes it, and of a result spoils it: the next call answers for what the arguments are now."""
    X = gen.build(dict(n=c['n'], R=c['R'], kind=c['kind'], seed=c['seed'], amp=1.))
    if ref.n_scales(len(X), ref.filter_len(c['wt']), True) < 3:
        return
    q = np.array(c['q'])
    rng = np.random.RandomState(c['seed'])
    p, j2 = gen.pval(c['p']), 3
    x = X if X.ndim == 1 else X[:, 0]
    kw = dict(p_exp=p, wt_name=c['wt'], gamint=c['gamint'], weighted=c['weighted'])
    W = wavelet_analysis(X, j1=1, j2=j2, **kw)
    mrq = W.wt_leaders if c['leaders'] and p is not None else W.wt_coefs

    def call(X, x, q, mrq):
        op = c['op']
        if op == 'wavelet':
            return wavelet_analysis(X, j1=1, j2=j2, **kw)
        if op == 'full':
            return mfa.mf_analysis_full(X, 1, j2, q=q, n_cumul=2, **kw)
        if op == 'minimal':
            return mfa.mf_analysis_full(X, 1, j2, q=q, n_cumul=2, minimal=True, **kw)
        if op == 'welch':
            return psd.welch_estimation(x, 10., 32)
        if op == 'wtpsd':
            return psd.wavelet_estimation(X, 10., 2)
        if op == 'bifull':
            return bivariate_analysis_full(x, x[::-1].copy(), 1, j2, q1=q, q2=q, n_cumul=2, **kw)
        if op == 'fractal':
            return fractal_analysis.fractal_analysis(X if X.ndim > 1 else X[:, None], 10., 2, (0., 8.))
        if op == 'structure':
            return StructureFunction(mrq, q, 1, j2, c['weighted'])
        if op == 'cumulants':
            return Cumulants(mrq, 2, 1, j2, c['weighted'])
        if op == 'spectrum':
            return MultifractalSpectrum(mrq, 1, j2, c['weighted'], q)
        if op == 'hmin':
            return estimation.estimate_hmin(mrq, 1, j2, c['weighted'])
        return estimation.compute_hurst(mrq, 1, j2, c['weighted'])

    from vf.core import close
    live = call(X, x, q, mrq)
    for edit in c['edits']:
        if c['spoil'] and c['op'] != 'hurst':
            for a in _arrays(live, []):
                if a.flags.writeable and a.dtype.kind == 'f' and not any(np.shares_memory(a, v) for v in mrq.values.values()):
                    a[...] = 1e9
        if c['op'] in ('structure', 'cumulants', 'spectrum', 'hmin', 'hurst'):
            j = 1 + c['seed'] % 3
            mrq.values[j][...] = EDITS[edit](mrq.values[j], rng)
            mrq.add_values(mrq.values[j], j)
        else:
            X[...] = EDITS[edit](X, rng)
        if c['q2'] and len(c['q2']) == len(q) and edit != 'scale':
            q[...] = c['q2']
        live = call(X, x, q, mrq)
        copy = type(mrq)(mrq.formalism, mrq.gamint)
        for j, v in mrq.values.items():
            copy.add_values(v.copy(), j)
        fresh = call(X.copy(), x.copy(), q.copy(), copy)
        a, b = snap(live), snap(fresh)
        check(set(a) == set(b), 'different outputs')
        for k in a:
            if isinstance(a[k], np.ndarray) and a[k].dtype.kind == 'f':
                close(a[k], b[k], f'{c["op"]} after {edit}: {k}', rtol=1e-9, atol=1e-9 * (1 + np.nanmax(np.abs(b[k]), initial=0.))
                      if not np.isinf(b[k]).any() else 1e-9)
    rec.tag(c['op'], *c['edits'])
    rec.good(True)


def copies(c, rec):
    """A result that is copied, or sent to another process, is the same result, and stays so when the original is spoilt."""
    X = gen.build(dict(n=c['n'], R=c['R'], kind=c['kind'], seed=c['seed'], amp=1.))
    if ref.n_scales(len(X), ref.filter_len(c['wt']), True) < 3:
        return
    p, q, w = gen.pval(c['p']), np.array(c['q']), c['weighted']
    W = wavelet_analysis(X, p_exp=p, wt_name=c['wt'], j1=1, j2=3, gamint=c['gamint'], weighted=w)
    x = X if X.ndim == 1 else X[:, 0]
    results = {'transform': W, 'analysis': mfa.mf_analysis(W.wt_coefs, W.wt_leaders, 3, 1, w, 2, q),
               'bivariate analysis': bivariate_analysis_full(x, x[::-1].copy(), 1, 3, p_exp=p, wt_name=c['wt'], weighted=w,
                                                             q1=q, q2=q, n_cumul=2),
               'spectrum': psd.wavelet_estimation(x, 10., 2)}
    for name, r in results.items():
        a = snap(r)
        twin = {'deepcopy': copy.deepcopy, 'pickle': lambda o: pickle.loads(pickle.dumps(o))}[c['how']](r)
        check(type(twin) is type(r), f'{name}: copy of type {type(twin)}')
        equal(a, snap(twin), f'{name} after {c["how"]}')
        if name == 'analysis':
            for s, t in ((r.dwt, twin.dwt), (r.lwt, twin.lwt)):
                if s is not None:
                    equal(snap([s.cumulants.c1, s.cumulants.C2, s.cumulants.M]),
                          snap([t.cumulants.c1, t.cumulants.C2, t.cumulants.M]), f'{name} after {c["how"]}: attributes')
        if name == 'transform':
            equal(snap(mfa.mf_analysis(W.wt_coefs, W.wt_leaders, 3, 1, w, 2, q)),
                  snap(mfa.mf_analysis(twin.wt_coefs, twin.wt_leaders, 3, 1, w, 2, q)), f'analysis of the {c["how"]} of a transform')
        for v in _arrays(r, []):
            if v.flags.writeable and v.dtype.kind == 'f':
                v += 1.
        equal(a, snap(twin), f'{name}: {c["how"]} after changes to the original')
    rec.tag(c['how'], str(c['p']))
    rec.good(c['R'] > 1 or p is not None)


def threads(c, rec):
    """Calls of several threads, switched at any line of the code, answer like calls one after the other."""
    w = World(c)
    for a in c['transforms']:
        w.run('wavelet', a)
    w.run('wtpsd', c['transforms'][0])
    tasks = []
    for op, a in c['ops']:
        own = copy.copy(w)      # the same signals and transforms, its own list of them
        own.W, own.psd = list(w.W), list(w.psd)
        tasks.append((op, lambda own=own, op=op, a=a: own.run(op, a)))
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        alone = []
        for (op, a), (_, t) in zip(c['ops'], tasks):
            own = copy.copy(w)
            own.W, own.psd = list(w.W), list(w.psd)
            alone.append(snap(own.run(op, a)))
        inputs = snap([w.X, w.q, w.listed, [t[0] for t in w.W]])
        s = Interleaved([t for _, t in tasks], c['sched'], c['rate'])
        for (op, _), exp, (kind, got) in zip(tasks, alone, s.run()):
            if kind == 'error':
                raise got
            equal(exp, snap(got), f'{op} in a thread, {[o for o, _ in tasks]} in the others')
        equal(inputs, snap([w.X, w.q, w.listed, [t[0] for t in w.W]]), 'the threads changed an argument')
    done = sum(list(x) != [''] for x in alone)
    rec.tag(*[op for op, _ in tasks])
    rec.good(done >= 2 and s.switches >= 5)


ARGS = fd(i=st.integers(0, 4), k=st.integers(0, 4), p=FORMALISMS, wt=st.sampled_from(['db2', 'db3', 'db1', 'sym4']),
          gamint=GAM, norm=NORM, weighted=gen.WEIGHTED, j2=st.sampled_from([10, None, 3, 2]), m=st.integers(2, 4),
          flag=st.booleans())
N = gen.rare(st.integers(70, 300), st.integers(300, 5000), 12)
OPS = ['wavelet', 'wavelet', 'wavelet', 'mfa', 'minimal', 'structure', 'cumulants', 'spectrum', 'hmin', 'hurst',
       'bivariate', 'bifull', 'full', 'welch', 'wtpsd', 'beta', 'qlog']
CHECKS = [
    Sub('history', fd(n=N, seed=gen.SEED, q=gen.q_lists(),
                      signals=st.lists(st.tuples(st.sampled_from(gen.KINDS), st.integers(0, 2)), min_size=1, max_size=3),
                      ops=st.lists(st.tuples(st.sampled_from(OPS), ARGS), min_size=2, max_size=9)), history, 2000,
        rule='sequences of calls sharing signals, transforms and exponents; after each call every input '
             'and earlier result is compared bit for bit, and the sequence is replayed; non-trivial: '
             'at least 3 calls that did something'),
    Sub('in_place', fd(n=N, seed=gen.SEED, R=st.integers(0, 2), kind=st.sampled_from(gen.KINDS),
                       q=gen.q_lists(neg=False), q2=st.lists(st.sampled_from([0.5, 1., 2., 3., 1.5]), max_size=6, unique=True),
                       wt=st.sampled_from(['db2', 'db3', 'db1']), p=st.sampled_from([None, 'inf', 2, 1]),
                       gamint=st.sampled_from([0., 0.5]), weighted=gen.WEIGHTED, leaders=st.booleans(), spoil=st.booleans(),
                       op=st.sampled_from(['wavelet', 'wavelet', 'full', 'minimal', 'welch', 'wtpsd', 'bifull', 'fractal', 'structure',
                                           'cumulants', 'spectrum', 'hmin', 'hurst']),
                       edits=st.lists(st.sampled_from(sorted(EDITS)), min_size=1, max_size=3)), in_place, 2800,
        rule='arguments changed in place and results spoilt by their owner between calls, against calls on fresh copies; '
             'every case counts'),
    Sub('copies', fd(n=N, seed=gen.SEED, R=st.integers(0, 3), kind=st.sampled_from(gen.KINDS),
                     q=gen.q_lists(neg=False), wt=st.sampled_from(['db2', 'db3', 'db1']), p=st.sampled_from([None, 'inf', 2, 1]),
                     gamint=st.sampled_from([0., 0.5]), weighted=gen.WEIGHTED, how=st.sampled_from(['deepcopy', 'pickle'])),
        copies, 400, rule='results copied or pickled, then the originals spoilt; non-trivial: leaders or several realisations'),
    Sub('threads', fd(n=st.integers(70, 250), seed=gen.SEED, q=gen.q_lists(neg=False), sched=gen.SEED,
                      rate=st.sampled_from([0.3, 0.05, 1.]),
                      signals=st.lists(st.tuples(st.sampled_from(gen.KINDS), st.integers(0, 2)), min_size=1, max_size=2),
                      transforms=st.lists(ARGS, min_size=1, max_size=2),
                      ops=st.lists(st.tuples(st.sampled_from(OPS), ARGS), min_size=2, max_size=4)), threads, 500,
        rule='two to four calls as threads that are switched between lines of the code by a seeded schedule, against the '
             'calls one by one; non-trivial: two calls that did something and five switches'),
]
ASSUMPTIONS = ['finite signals; plots are covered by C26']
