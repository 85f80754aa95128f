"""C21 - Signal: whatever was called before, a call answers for its own arguments."""
import numpy as np
from vf.core import Sub, check, close, fail, st
from vf import gen, ref
from vf.e2e import FORMALISMS, fd
from props.c09 import snap

from pymultifracs.estimation import compute_hurst, estimate_hmin
from pymultifracs.fractal_analysis import estimate_beta
from pymultifracs.mfa import mf_analysis
from pymultifracs.psd import wavelet_estimation, welch_estimation
from pymultifracs.signal import Signal
from pymultifracs.wavelet import wavelet_analysis


def near(got, exp, what):
    a, b = snap(got), snap(exp)
    check(set(a) == set(b), f'{what}: parts differ {sorted(set(a) ^ set(b))[:4]}')
    for k in b:
        if isinstance(b[k], np.ndarray) and b[k].dtype.kind in 'fiu':
            close(a[k], b[k], f'{what}{k}', rtol=1e-9, atol=1e-12)
        else:
            check(np.array_equal(a[k], b[k]), f'{what}{k}: {a[k]!r}, expected {b[k]!r}')


class Model:
    """What the last computing calls were; answers come from the functions."""

    def __init__(self, s, fs, log):
        self.X = gen.build(s)
        self.X0 = self.X.copy()
        self.fs, self.log = fs, log
        self.sig = Signal(self.X, fs, log)
        self.J = {nm: ref.n_scales(len(self.X), 2 * nm, False) for nm in (1, 2, 3, 4)}
        self.wp = None          # parameters of the last wavelet analysis
        self.W = None
        self.memo = {}
        self.last = None        # exponents and orders of the last multifractal call
        self.stored = dict(wt_psd=None, welch_psd=None, fractal=None, multi_fractal=None)

    def once(self, key, fn):
        if key not in self.memo:
            self.memo[key] = fn()
        return self.memo[key]

    def psd(self, nm, j2):
        return self.once(('psd', nm, j2), lambda: wavelet_estimation(self.X0.copy(), self.fs, nm, j2))

    def wt(self, **kw):
        return self.once(('wt', tuple(kw.items())), lambda: wavelet_analysis(self.X0.copy(), **kw))

    def mf(self, W, wp, q, n_cumul):
        return mf_analysis(W.wt_coefs, W.wt_leaders, W.j2_eff, j1=wp['j1'], weighted=wp['weighted'], q=q,
                           n_cumul=n_cumul)


def _wparams(o, n):
    p = gen.pval(o['p'])
    J = ref.n_scales(n, ref.filter_len(o['wt']), p is not None)
    if J < 2:
        return None
    j1 = 1 + (o['j1'] and J > 2)
    j2 = {0: J, 1: j1 + 1, 2: 12}[o['j2']]
    return dict(j1=int(j1), j2=j2, normalization=o['norm'], gamint=o['gam'], weighted=o['w'], wt_name=o['wt'], p_exp=p)


def _params(o, m):
    """Fresh parameters, or those of the last wavelet analysis with a single one changed (or none)."""
    n = len(m.X)
    wp = _wparams(o, n)
    if wp is None or m.wp is None or o['vary'] == 'all':
        return wp
    one = dict(m.wp)
    if o['vary'] in one:
        new = wp[o['vary']]
        if new == one[o['vary']]:     # really change it
            new = {'weighted': not new, 'normalization': 3 - one['normalization'], 'gamint': 0.25 + one['gamint'],
                   'wt_name': 'db2' if new == 'db3' else 'db3', 'p_exp': {None: np.inf, np.inf: 2, 2: None}.get(new, 2),
                   'j1': 3 - min(one['j1'], 2), 'j2': one['j2'] - 1}[o['vary']]
        one[o['vary']] = new
    J = min(ref.n_scales(n, ref.filter_len(one['wt_name']), one['p_exp'] is not None), one['j2'])
    return one if J > one['j1'] else wp


QS = [[2.], [1., 2.], [-1., 0., 2., 3.], [2., 1.], [0.5, 2.], [2.5]]


def history(c, rec):
    n2 = c['n2'] or c['sig']['n']
    ms = [Model(c['sig'], c['fs'], c['log']),
          Model(dict(c['sig'], n=n2, seed=c['sig']['seed'] ^ 7), c['fs'] * c['fsr'], c['log'])]
    shared_q = np.array([1., 2., 3.])
    shared_list = [1., 2., 3.]
    kept = []
    done, early, repeats, refusals = 0, 0, 0, 0
    for o in c['ops']:
        m = ms[o['on']]
        s, k = m.sig, o['op']
        before = len(m.memo)
        if k == 'wpsd':
            if m.J[o['nm']] < 2:
                continue
            exp = m.psd(o['nm'], o['pj2'])
            got = s.estimate_wavelet_psd() if (o['nm'], o['pj2']) == (2, None) else \
                s.estimate_wavelet_psd(n_moments=o['nm'], j2=o['pj2'])
            m.stored['wt_psd'] = exp
        elif k == 'welch':
            n_fft, seg = o['fft']
            if m.X.ndim != 1:
                continue
            exp = m.once(('welch', n_fft, seg), lambda: welch_estimation(m.X0.copy(), m.fs, n_fft, seg))
            got = s.estimate_welch_psd(n_fft=n_fft, seg_size=seg)
            m.stored['welch_psd'] = exp
        elif k == 'fractal':
            if m.X.ndim != 1 or m.J[o['nm']] < 3:
                continue
            J = m.J[o['nm']]
            band = {0: (0.7 * m.fs * 2. ** -J, 0.5 * m.fs), 1: (0.7 * m.fs * 2. ** -2, 0.5 * m.fs),
                    2: (0.7 * m.fs * 2. ** -J, 0.2 * m.fs)}[o['band']]
            w = m.psd(o['nm'], None)
            exp = estimate_beta(w.freq, w.psd, log=m.log, freq_band=band)
            got = s.fractal_analysis(n_moments=o['nm'], freq_band=band)
            m.stored['wt_psd'], m.stored['fractal'] = w, exp
        elif k == 'wavelet':
            wp = _params(o, m)
            if wp is None:
                continue
            exp = m.wt(**wp)
            got = s.wavelet_analysis(**wp)
            if m.wp != wp:
                m.stored['multi_fractal'] = None
            m.wp, m.W = wp, exp
        elif k in ('mf', 'hurst', 'hmin'):
            q = QS[o['q']] if o['qk'] == 0 else np.array(QS[o['q']])
            if o['qk'] == 2:            # the caller reuses its own array of exponents
                q = shared_q
                q[0] += 0.25
            if o['qk'] == 4:            # or its own list
                q = shared_list
                if o['lg']:
                    q[0] += 0.25
            nc = o['nc']
            if o['qk'] == 3 and m.last:  # the exponents of the last call, or exponents very close to them
                q, nc = m.last[0].copy(), m.last[1]
                q[-1] += 1e-9 if o['lg'] else 0.
            call = {'mf': lambda: s.mf_analysis(q, nc) if o['save'] else s.mf_analysis(q, nc, save=False),
                    'hurst': s.hurst, 'hmin': s.hmin}[k]
            if m.W is None:
                try:
                    call()
                except AttributeError:
                    early += 1
                    continue
                fail(f'{k} before any wavelet analysis did not raise AttributeError')
            W, wp = m.W, m.wp
            if k == 'mf':
                exp = m.mf(W, wp, list(q) if o['qk'] in (0, 4) else np.array(q), nc)
                m.last = np.array(q, dtype=float), nc
            elif k == 'hurst':
                exp = compute_hurst(W.wt_coefs, wp['j1'], W.j2_eff, wp['weighted'])
            else:
                exp = estimate_hmin(W.wt_coefs, j1=wp['j1'], j2_eff=W.j2_eff, weighted=wp['weighted'])
            got = call()
            if k == 'mf':
                for d in (got.dwt, got.lwt):
                    check(d is None or np.array_equal(d.structure.q, exp.dwt.structure.q)
                          and np.array_equal(d.spectrum.q, exp.dwt.structure.q), 'answer for other exponents')
                if o['save']:
                    m.stored['multi_fractal'] = exp
        elif k == 'full':
            wp = _params(o, m)
            if wp is None:
                continue
            if o['default']:
                wp = dict(j1=1, j2=10, normalization=1, gamint=0.0, weighted=True, wt_name='db3', p_exp=None)
                q, nc = [2], 3
                if ref.n_scales(len(m.X), 6, False) < 2:
                    continue
                got = s.mf_analysis_full()
            else:
                q, nc = QS[o['q']], o['nc']
                got = s.mf_analysis_full(q=q, n_cumul=nc, save=o['save'], **wp)
            W = m.wt(**wp)
            exp = m.mf(W, wp, q, nc)
            if m.wp != wp:
                m.stored['multi_fractal'] = None
            m.wp, m.W = wp, W
            if o['default'] or o['save']:
                m.stored['multi_fractal'] = exp
        elif k == 'bad':
            if o['nc'] == 2 or m.X.ndim != 1:
                wp = _wparams(o, len(m.X)) or dict(j1=1, j2=3, normalization=1, gamint=0., weighted=True, p_exp=None)
                wp['wt_name'] = 'no wavelet'
                call = (lambda: s.wavelet_analysis(**wp)) if o['save'] else \
                    (lambda: s.mf_analysis_full(q=[2.], **wp))
            elif o['save']:
                call = lambda: s.estimate_wavelet_psd(n_moments=o['nm'] * 50)   # noqa: E731
            else:
                call = lambda: s.estimate_welch_psd(n_fft=o['fft'][0], seg_size=2 * len(m.X))   # noqa: E731
            for i in range(1 + o['w']):
                try:
                    call()
                except Exception:   # any refusal is as good
                    pass
                else:
                    fail(f'impossible request answered the {i + 1}th time, after {done} calls')
            refusals += 1
        elif k == 'diff':
            other = ms[1 - o['on']]
            if min(m.J[o['nm']], other.J[o['nm']]) < 2:
                continue
            for m2 in ms:
                if m2.stored['wt_psd'] is None:
                    m2.stored['wt_psd'] = m2.psd(o['nm'], o['pj2'])
                    m2.sig.estimate_wavelet_psd(o['nm'], o['pj2'])
            a, b = m.stored['wt_psd'], other.stored['wt_psd']
            fa, fb = list(a.freq), list(b.freq)
            common = sorted(set(fa) & set(fb))
            if not common:
                continue
            pa = np.array([a.psd[fa.index(f)] for f in common])
            pb = np.array([b.psd[fb.index(f)] for f in common])
            log = {0: None, 1: (np.log2, np.exp2), 2: (np.log, np.exp)}[o['lg']]
            if log and not ((pa > 0).all() and (pb > 0).all()):
                continue
            d = s.psd_difference(other.sig) if log is None else s.psd_difference(other.sig, log)
            if log is None:
                exp = pa - pb
            else:
                exp = log[0](pa) - log[0](pb)
                exp = log[1](exp - exp.min() + 0.1)
            check(d.data is None and d.fs == m.fs and d.log == m.log, 'psd_difference: attributes')
            close(d.wt_psd.freq, common, 'psd_difference: frequencies', rtol=1e-12)
            close(d.wt_psd.psd, exp, 'psd_difference: values', rtol=1e-8, atol=1e-12 * np.abs(pa).max())
            kept.append((k, d.wt_psd, snap(d.wt_psd)))
            rec.tag('difference', 'partial overlap' if len(common) < max(len(fa), len(fb)) else 'same axis')
            done += 1
            continue
        if k != 'bad':
            repeats += len(m.memo) == before
            near(got, exp, f'{k} after {done} calls')
            if o['save'] or k not in ('wavelet', 'wpsd', 'welch', 'mf'):
                kept.append((k, got, snap(got)))
            got = None            # not kept: its storage may be used again
            done += 1
        rec.tag(k)
        for m2 in ms:
            for name, exp2 in m2.stored.items():
                have = getattr(m2.sig, name)
                if exp2 is None:
                    check(have is None, f'{name} is set though nothing was computed for the current parameters')
                else:
                    near(have, exp2, f'stored {name} after {k}')
            if m2.W is None:
                check(m2.sig.wt_transform is None, 'wt_transform set before any wavelet analysis')
            else:
                near(m2.sig.wt_transform, m2.W, f'stored wt_transform after {k}')
            check(np.array_equal(m2.X, m2.X0), f'{k} modified the data')
    for k, got, was in kept:
        near_s = snap(got)
        for f in was:
            ok = np.array_equal(near_s[f], was[f], equal_nan=isinstance(was[f], np.ndarray)
                                and was[f].dtype.kind == 'f')
            check(ok, f'result of {k} changed by later calls ({f})')
    rec.tag('early' if early else 'no early call', 'repeats' if repeats else 'no repeat',
            'refusals' if refusals else 'no refusal')
    rec.good(done >= 4)


OP_ARGS = dict(on=st.sampled_from([0, 0, 1]),
        op=st.sampled_from(['mf', 'wavelet', 'full', 'mf', 'wpsd', 'fractal', 'welch', 'diff', 'diff', 'hurst', 'hmin', 'bad']),
        nm=st.sampled_from([2, 1, 3]), pj2=st.sampled_from([None, None, 3]),
        fft=st.sampled_from([(64, None), (64, 32), (32, 64), (100, 50), (128, None)]), band=st.integers(0, 2),
        p=st.sampled_from([None, 'inf', 2]), wt=st.sampled_from(['db3', 'db2']), norm=st.sampled_from([1, 2]),
        gam=st.sampled_from([0., 0.5]), w=st.booleans(), j1=st.booleans(), j2=st.integers(0, 2),
        q=st.integers(0, len(QS) - 1), qk=st.integers(0, 4), nc=st.sampled_from([3, 2]), save=st.booleans(),
        default=st.sampled_from([False, False, True]),
        vary=st.sampled_from(['all', 'all', None, 'weighted', 'p_exp', 'j1', 'j2', 'gamint', 'normalization', 'wt_name', 'weighted']), lg=st.integers(0, 2))
OP = fd(**OP_ARGS)
OP2 = fd(**{**OP_ARGS, 'on': st.sampled_from([0, 0, 0, 1]), 'op': st.sampled_from(['wavelet', 'mf', 'full', 'hurst', 'hmin', 'wavelet'])})
# few distinct questions, so that the same one comes back after others, kept or not
OP3 = fd(**{**OP_ARGS, 'on': st.just(0), 'op': st.sampled_from(['mf', 'mf', 'mf', 'full', 'wavelet']), 'q': st.integers(0, 2),
            'qk': st.sampled_from([0, 1, 4]), 'vary': st.sampled_from([None, None, 'weighted', 'p_exp']), 'default': st.just(False),
            'j1': st.just(False), 'j2': st.just(0), 'norm': st.just(1), 'gam': st.just(0.), 'wt': st.just('db2')})
OP4 = fd(**{**OP_ARGS, 'on': st.sampled_from([0, 0, 1]), 'op': st.sampled_from(['wpsd', 'fractal', 'fractal', 'welch', 'diff']),
            'nm': st.sampled_from([2, 1]), 'fft': st.sampled_from([(64, None), (64, 32)])})
# transforms that nobody keeps, looked at now and then
OP5 = fd(**{**OP_ARGS, 'on': st.just(0), 'op': st.sampled_from(['wavelet', 'hurst', 'hmin', 'mf', 'wavelet']), 'q': st.integers(0, 1), 'lg': st.just(0),
            'qk': st.just(0), 'vary': st.sampled_from(['weighted', 'p_exp', 'gamint', 'normalization']), 'default': st.just(False),
            'j1': st.just(False), 'j2': st.just(1), 'save': st.sampled_from([False, False, False, True])})
WAVELET = fd(**{**OP_ARGS, 'on': st.just(0), 'op': st.just('wavelet'), 'vary': st.just('all')})
CHECKS = [
    Sub('saving', fd(sig=gen.signals(n_min=140, n_max=200, r_max=2), n2=st.just(0), fs=st.just(1.), fsr=st.just(1.),
                     log=st.just('log2'),
                     ops=st.tuples(WAVELET, st.lists(OP3, min_size=4, max_size=10)).map(lambda t: [t[0], *t[1]])),
        history, 400, rule='few distinct multifractal questions, asked again with and without saving; non-trivial: at least 4 calls that compute'),
    Sub('dropped', fd(sig=gen.signals(n_min=140, n_max=200, r_max=2), n2=st.just(0), fs=st.just(1.), fsr=st.just(1.), log=st.just('log2'),
                      ops=st.tuples(WAVELET, st.lists(OP5, min_size=5, max_size=12)).map(lambda t: [t[0], *t[1]])),
        history, 400, rule='transforms of the same scales, released as new ones come, and their exponents; non-trivial: at least 4 calls that compute'),
    Sub('spectra', fd(sig=gen.signals(n_min=140, n_max=200, r_max=0), n2=st.sampled_from([0, 200]), fs=st.sampled_from([1., 100.]),
                      fsr=st.sampled_from([1., 2.]), log=st.sampled_from(['log2', 'log']), ops=st.lists(OP4, min_size=5, max_size=10)),
        history, 400, rule='few distinct spectral questions, asked again; non-trivial: at least 4 calls that compute'),
    Sub('variations', fd(sig=gen.signals(n_min=140, n_max=300, r_max=2), n2=st.sampled_from([0, 200]),
                         fs=st.just(1.), fsr=st.just(1.), log=st.just('log2'), ops=st.lists(OP2, min_size=6, max_size=14)),
        history, 800, rule='wavelet and multifractal calls, mostly changing one parameter at a time; non-trivial: at least 4 calls that compute'),
    Sub('history', fd(sig=gen.signals(n_min=140, n_max=400, r_max=2), n2=st.sampled_from([0, 0, 200, 320]),
                      fs=st.sampled_from([1., 100., 250.]), fsr=st.sampled_from([1., 2., 0.25]),
                      log=st.sampled_from(['log2', 'log']), ops=st.lists(OP, min_size=6, max_size=14)),
        history, 1000, rule='sequences of 6 to 14 calls on two signals; non-trivial: at least 4 calls that compute'),
]
ASSUMPTIONS = ['the data array of a Signal is not replaced or modified by the caller',
               'signals long enough for two scales; Welch segments not longer than the signal']
