"""C25 - invalid requests are refused, valid ones at the limits are accepted, warnings match their cause."""
import importlib
import warnings
import numpy as np
from vf.core import Sub, check, fail, recorded, st
from vf import gen, ref
from vf.e2e import GAM, NORM, Setup, analysis, fd

from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
from pymultifracs.bivariate import bivariate_analysis_full
from pymultifracs.multiresquantity import MultiResolutionQuantity
from pymultifracs.signal import Signal
from pymultifracs.simul import fbm, fgn, mrw, mrw_cumul
from pymultifracs.utils import build_q_log
from pymultifracs.wavelet import decomposition_level, wavelet_analysis
M = importlib.import_module('pymultifracs.simul.mrw')
P = importlib.import_module('pymultifracs.simul.pzutils')


def refused(kinds, fn, what):
    try:
        fn()
    except kinds:
        return
    except Exception as e:
        fail(f'{what}: {type(e).__name__} ({e}), expected {kinds}')
    fail(f'{what}: accepted')


def synthesis(c, rec):
    n, k = c['n'], c['what']
    shape = n if c['R'] == 0 else (n, c['R'])
    H, lam, L = c['H'], c['lam'], max(2, int(c['L'] * n))
    far = 10. ** -c['e']
    bad = {0: 1 + far, 1: -far, 2: float('nan'), 3: 1.5, 4: -3.}[c['bad']]
    if k == 'H':
        for f in (fgn, fbm):
            for m in ('cme', 'chol'):
                refused(ValueError, lambda: f(shape, bad, method=m), f'{f.__name__} with H={bad}')
        refused(ValueError, lambda: mrw(shape, bad, lam, L), f'mrw with H={bad}')
        refused(ValueError, lambda: mrw_cumul(shape, bad + lam ** 2, -lam ** 2, L) if bad > 1 + 1e-9 or bad < -1e-9
                or bad != bad else mrw(shape, bad, lam, L), f'mrw_cumul with H={bad}')
        refused(ValueError, lambda: M.skewed_mrw(shape, bad, lam, L), f'skewed_mrw with H={bad}')
    elif k == 'L':
        over = n * (1 + far) if c['bad'] % 2 else n + 1
        refused(ValueError, lambda: mrw(shape, H, lam, over), f'mrw with L={over} > N={n}')
        refused(ValueError, lambda: mrw_cumul(shape, H, -min(lam, H ** 0.5 / 2) ** 2, over), 'mrw_cumul with L > N')
        dt = c['dt']
        refused(ValueError, lambda: M.skewed_mrw(shape, H, lam, over * dt * (1 + 1e-9), dt=dt), 'skewed_mrw with L/dt > N')
    elif k == 'cumulants':
        # a positive second cumulant has no walk: an error, or nothing that looks like one
        for c2 in (lam ** 2, far, 0.1):
            with np.errstate(all='ignore'):
                try:
                    x = mrw_cumul(shape, H / 2, c2 / 2, L)
                except ValueError:
                    continue
            check(not np.isfinite(x).any(), f'mrw_cumul with c2 = {c2 / 2} > 0 gives a path')
        for h in (lam ** 2 - far, 1 + lam ** 2 + far):
            refused(ValueError, lambda: mrw_cumul(shape, h, -lam ** 2, L), f'mrw_cumul with c1 + c2 = {h - lam ** 2}')
        check(np.isfinite(mrw_cumul(shape, 1 + lam ** 2 / 2, -lam ** 2, L)).all(), 'mrw_cumul with c1 > 1 >= c1 + c2')
    elif k == 'method':
        for name in ('CME', 'cholesky', 'none', '', None):
            refused(ValueError, lambda: fgn(shape, H, method=name), f'fgn with method {name!r}')
            refused(ValueError, lambda: mrw(shape, H, lam, L, method=name), f'mrw with method {name!r}')
    else:
        want = (n,) if c['R'] == 0 else (n, c['R'])
        with recorded() as ws:
            for h in (0, 1, 0., 1., H):
                check(fgn(shape, h).shape == want, f'fgn at H={h}')
                x = mrw(shape, h, lam, n)
                check(x.shape == want and np.isfinite(x).all(), f'mrw at H={h}, L=N')
            check(fgn(shape, H, method='chol').shape == want, 'chol')
            x = M.skewed_mrw(shape, H, lam, n * c['dt'], dt=c['dt'])
            check(x.shape == want, 'skewed_mrw at L/dt = N')
        del ws[:]
        with recorded() as ws:      # well inside: the embedding is not singular
            h = 0.05 + 0.85 * H
            fgn(shape, h), fbm(shape, h)
        check(not ws, lambda: f'fgn at H={h} warns: {ws[0].message}')
    rec.tag(k)
    rec.good()


def embedding(c, rec):
    """The circulant embedding warns exactly when it is not positive."""
    n = c['n']
    rng = np.random.RandomState(c['seed'])
    cov = {0: np.exp(-np.arange(n) / (n / 5)), 1: np.cos(c['H'] * 3 * np.arange(n)),
           2: rng.standard_normal(n), 3: np.where(np.arange(n) == 0, 1, -0.7 * (np.arange(n) == 1)),
           4: np.where(np.arange(n) == 0, 1, 0.3 * (np.arange(n) == 1))}[c['bad']].astype(float)
    cov = cov * 10. ** (-c['e'] / 2)       # any unit
    ev = np.real(np.fft.fft(np.concatenate([cov, cov[-2:0:-1]])))
    if abs(ev.min()) < 1e-9 * np.abs(ev).max():
        return
    with recorded() as ws:
        P.gaussian_cme(cov, n, 2)
    check(bool(ws) == (ev.min() < 0), f'smallest eigenvalue {ev.min()}: {len(ws)} warnings')
    rec.tag('warned' if ws else 'silent')
    rec.good()


def quantities(c, rec):
    k = c['what']
    if k == 'formalism':
        for name in ('wavelet', 'leader', 'wavelet p-leaders', 'Wavelet coef', '', None):
            refused(ValueError, lambda: MultiResolutionQuantity(name, 0.), f'formalism {name!r}')
        for name in ('wavelet coef', 'wavelet leader', 'wavelet p-leader'):
            check(MultiResolutionQuantity(name, 0.5).formalism == name, name)
    elif k == 'q_log':
        for lo, hi in ((0, c['hi']), (-c['hi'], c['hi']), (c['hi'], 0), (c['hi'], -c['hi']), (0, 0)):
            refused(ValueError, lambda: build_q_log(lo, hi, 5), f'build_q_log({lo}, {hi})')
        check(len(build_q_log(1e-6, c['hi'], 5)) > 5, 'small q_min')
    else:
        m = dict(c['mrq'], R=1, nan='none', formalism='wavelet leader', gamint=0.)
        a = gen.build_mrq(m)
        q = np.array([0, 1, 2])
        other = dict(m)
        vals = gen.build_mrq(dict(m, seed=m['seed'] ^ 1))
        if k == 'mixed formalism':
            other['formalism'] = c['form']
        elif k == 'mixed gamint':
            other['gamint'] = c['hi']
        else:
            j = 1 + int(c['f'] * (m['J'] - 1))
            if c['missing']:
                vals[j][0] = np.nan
            else:
                vals[j] = vals[j][1:]
        A, B = gen.make_mrq(m, a), gen.make_mrq(other, vals)
        kinds = (AssertionError, ValueError)
        for u, v in ((A, B), (B, A)):
            refused(kinds, lambda: BiStructureFunction(u, v, 1, m['J'], q, q, True), f'BiStructureFunction, {k}')
            if k != 'mixed gamint':
                refused(kinds, lambda: BiCumulants(u, v, 2, 1, m['J'], True), f'BiCumulants, {k}')
        BiStructureFunction(A, A, 1, m['J'], q, q, True)
        BiCumulants(A, A, 2, 1, m['J'], True)
    rec.tag(k)
    rec.good()


def analyses(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    top = ref.max_level(len(s.X), ref.filter_len(c['wt']))
    check(decomposition_level(len(s.X), c['wt']) == top, 'decomposition_level')
    for j2 in (None, top, max(s.j2, 2), top + 1, top + 7):
        with recorded() as ws:
            W = wavelet_analysis(s.X, p_exp=np.inf if s.p else None, wt_name=c['wt'], j1=s.j1, j2=j2)
        about = [w for w in ws if 'j2' in str(w.message)]
        check(bool(about) == (j2 is not None and j2 > top), f'j2={j2}, maximum {top}: {len(about)} warnings about j2')
        check(len(ws) == len(about), lambda: f'unexpected warning {ws[0].message}')
        check(W.j2_eff <= top, 'j2_eff beyond the maximum level')
    refused(ValueError, lambda: wavelet_analysis(s.X, wt_name='no such wavelet'), 'unknown wavelet')
    S = Signal(s.X, 1.)
    for f in (S.hurst, S.hmin, lambda: S.mf_analysis([2.], 2)):
        refused(AttributeError, f, 'Signal before the wavelet analysis')
    if s.X.ndim == 1 or s.X.shape[1] == 1:
        n = len(s.X)
        Y = gen.build(dict(c['sig'], n=n - n // 3))
        a = ref.n_scales(n, ref.filter_len(c['wt']), bool(s.p))
        b = ref.n_scales(len(Y), ref.filter_len(c['wt']), bool(s.p))
        if b >= 2:
            refused((AssertionError, ValueError), lambda: bivariate_analysis_full(
                s.X, Y, 1, min(a, b), p_exp=np.inf if s.p else None), 'signals of different lengths')
            rec.tag('two lengths')
    rec.good()


S = dict(n=st.integers(6, 120), R=st.integers(0, 3), H=gen.f(0.05, 0.95), lam=gen.f(0.02, 0.5), L=gen.FRAC,
         e=st.integers(1, 12), bad=st.integers(0, 4), dt=st.sampled_from([1, 0.5, 2., 0.125]), seed=gen.SEED)
CHECKS = [
    Sub('synthesis', fd(what=st.sampled_from(['H', 'L', 'method', 'cumulants', 'limits', 'limits']), **S), synthesis, 9000,
        rule='invalid and limiting parameters of the generators; every case'),
    Sub('embedding', fd(**S), embedding, 2400, rule='autocovariances; non-trivial: clearly positive or not'),
    Sub('quantities', fd(what=st.sampled_from(['mixed formalism', 'mixed gamint', 'mixed counts', 'formalism', 'q_log']),
                         mrq=gen.mrqs(r_max=1), f=gen.FRAC, missing=st.booleans(), hi=gen.f(0.1, 8),
                         form=st.sampled_from(['wavelet coef', 'wavelet p-leader'])), quantities, 2400,
        rule='mismatched quantities and unknown names; every case'),
    Sub('analyses', fd(**analysis()), analyses, 4500, rule='signals x scale limits; every case with 2 scales'),
]
