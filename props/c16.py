"""C16 - the one-call analysis is the composition of its parts, with the documented defaults."""
import inspect
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen
from vf.e2e import FIELDS, Setup, analysis, fd, flat, same

from pymultifracs.cumulants import Cumulants
from pymultifracs.estimation import estimate_hmin
from pymultifracs.mfa import mf_analysis, mf_analysis_full, minimal_mf_analysis
from pymultifracs.mfspectrum import MultifractalSpectrum
from pymultifracs.structurefunction import StructureFunction
from pymultifracs.wavelet import wavelet_analysis
from pymultifracs.bivariate import bivariate_analysis, bivariate_analysis_full

T = dict(rtol=1e-9, atol=1e-10)


def _parts(M, j1, j2, c, q):
    out = {}
    sf = StructureFunction(M, q, j1, j2, c['weighted'])
    cm = Cumulants(M, c['n_cumul'], j1, j2, c['weighted'])
    sp = MultifractalSpectrum(M, j1, j2, c['weighted'], q)
    for part, o in (('structure', sf), ('cumulants', cm), ('spectrum', sp)):
        for f in FIELDS[part]:
            v = getattr(o, f)
            if v is not None:
                out[part, f] = np.array(v)
    out['hmin', ''] = estimate_hmin(M, j1, j2, c['weighted'])[0]
    return out


def compose(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    q = np.array(c['q'])
    given = list(c['q']) if c['aslist'] else q
    full = s.full(q=given)
    F = flat(full)
    for side, M in (('dwt', W.wt_coefs), ('lwt', W.wt_leaders)):
        d = getattr(full, side)
        check((d is None) == (M is None), f'{side} is {d} for p_exp={s.p}')
        if M is None:
            continue
        P = _parts(M, s.j1, W.j2_eff, c, q)
        check({k[1:] for k in F if k[0] == side} == set(P), f'{side}: outputs')
        for k in P:
            close(F[(side,) + k], P[k], f'{side} {"/".join(k)}', **T)
        check(d.structure.formalism == M.formalism and d.cumulants.formalism == M.formalism
              and d.spectrum.formalism == M.formalism, f'{side}: formalism')
    same(F, flat(mf_analysis(W.wt_coefs, W.wt_leaders, W.j2_eff, s.j1, c['weighted'], c['n_cumul'], given)),
         'wavelet analysis followed by multifractal analysis', **T)
    rec.tag(str(c['p']), 'list' if c['aslist'] else 'array')
    rec.good(c['p'] is not None or c['aslist'])


def minimal(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    q = None if c['noq'] else (list(c['q']) if c['aslist'] else np.array(c['q']))
    W = s.wavelet()
    full = s.full(q=q)
    for small in (s.full(q=q, minimal=True),
                  minimal_mf_analysis(W.wt_coefs, W.wt_leaders, W.j2_eff, s.j1, c['weighted'], c['n_cumul'], q)):
        check(small.dwt.cumulants is None and small.dwt.spectrum is None and small.dwt.hmin is None,
              'the minimal analysis fills more of dwt than its structure functions')
        A, B = flat(full), flat(small)
        keys = {k for k in A if k[:2] in (('dwt', 'structure'), ('lwt', 'cumulants'))}
        check(set(B) == keys, f'minimal analysis: {sorted(set(B) ^ keys)}')
        if s.p is None:
            check(small.lwt is None, 'lwt without leaders')
        else:
            check(small.lwt.structure is None and small.lwt.spectrum is None and small.lwt.hmin is None, 'lwt extras')
        same({k: A[k] for k in keys}, B, 'minimal against full analysis', **T)
    if q is None:
        check(list(full.dwt.structure.q) == [2], f'default exponents {full.dwt.structure.q}')
        check(full.dwt.structure.H is not None, 'no H with the default exponents')
    rec.tag(str(c['p']), 'no q' if q is None else 'list' if c['aslist'] else 'array')
    rec.good(True)


def defaults(c, rec):
    """Omitted arguments mean what the documentation says."""
    X = gen.build(c['sig'])
    from vf import ref
    J = ref.n_scales(len(X), ref.filter_len('db3'), c['leaders'])
    if J < 3:
        return
    j2 = 2 + c['sig']['seed'] % (J - 1)
    kw = dict(p_exp=np.inf) if c['leaders'] else {}
    a = mf_analysis_full(X, 1, j2, **kw)
    b = mf_analysis_full(X, j1=1, j2=j2, normalization=1, gamint=0.0, weighted=True, wt_name='db3',
                         p_exp=np.inf if c['leaders'] else None, q=[2], n_cumul=3, minimal=False)
    same(flat(a), flat(b), 'default arguments', **T)
    check(len(a.dwt.cumulants.m) == 3, 'three cumulants by default')
    u, v = wavelet_analysis(X, **kw), wavelet_analysis(X, p_exp=np.inf if c['leaders'] else None, wt_name='db3', j1=1,
                                                       j2=10, gamint=0., normalization=1, weighted=True)
    check(u.j2_eff == v.j2_eff == min(10, J), f'effective upper scale {u.j2_eff}, {v.j2_eff}, available {J}')
    for j in u.wt_coefs.values:
        close(u.wt_coefs.values[j], v.wt_coefs.values[j], f'coefficients at scale {j}', **T)
    rec.good(True)


def options(c, rec):
    """Every optional argument left out against its documented default, function by function."""
    from pymultifracs import fractal_analysis as fa, psd, simul
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.signal import Signal
    import importlib
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    M = importlib.import_module('pymultifracs.simul.mrw')
    rng = np.random.RandomState(c['seed'])
    n = c['n']
    X = np.cumsum(rng.standard_normal(n)) + 0.3 * rng.standard_normal(n)
    fs = c['fs']

    def seeded(fn, *a, **k):
        np.random.seed(c['seed'] % 2**32)
        return fn(*a, **k)

    def pair(a, b, what):
        a, b = (x if isinstance(x, tuple) else (x,) for x in (a, b))
        check(len(a) == len(b), f'{what}: {len(a)} and {len(b)} values')
        for u, v in zip(a, b):
            close(u, v, f'{what}: argument left out against its default', rtol=1e-9, atol=1e-12)
    k = c['what']
    if k == 'welch':
        pair(psd.welch_estimation(X, fs), psd.welch_estimation(X, fs, 4096, None), 'welch_estimation')
        pair(psd.welch_estimation(X, fs, 512), psd.welch_estimation(X, fs, 512, 512), 'welch_estimation seg_size')
        pair(Signal(X, fs).estimate_welch_psd(), psd.welch_estimation(X, fs, 4096, None), 'Signal.estimate_welch_psd')
    elif k == 'wavelet psd':
        pair(psd.wavelet_estimation(X, fs, 2), psd.wavelet_estimation(X, fs, 2, None), 'wavelet_estimation')
        pair(Signal(X, fs).estimate_wavelet_psd(), psd.wavelet_estimation(X, fs, 2, None), 'Signal.estimate_wavelet_psd')
    elif k == 'slope':
        w = psd.wavelet_estimation(X, fs, 2)
        pair(fa.estimate_beta(w.freq, w.psd), fa.estimate_beta(w.freq, w.psd, (0.01, 2), 'log2'), 'estimate_beta')
        pair(fa.fractal_analysis(X, fs), fa.fractal_analysis(X, fs, 2, (0.01, 2), 'log2'), 'fractal_analysis')
        pair(Signal(X, fs).fractal_analysis(), fa.fractal_analysis(X, fs, 2, (0.01, 2), 'log2'), 'Signal.fractal_analysis')
        check(Signal(X, fs).log == 'log2', 'logarithm of Signal')
    elif k == 'plots':
        def lines(fn, *a, **kw):
            plt.close('all')
            fn(*a, **kw)
            out = [np.concatenate([np.ravel(l.get_xdata()), np.ravel(l.get_ydata())]) for l in plt.gca().get_lines()]
            plt.close('all')
            return tuple(out)
        pair(lines(psd.plot_psd, X, fs), lines(psd.plot_psd, X, fs, n_fft=4096, seg_size=None, n_moments=2, log='log2'),
             'plot_psd')
        pair(lines(fa.plot_fractal, X, fs), lines(fa.plot_fractal, X, fs, log='log2', freq_band=(0.01, 2), n_moments=2,
                                                  n_fft=4096, seg_size=None, lowpass_freq=49), 'plot_fractal')
        pair(lines(Signal(X, fs).plot_psd), lines(Signal(X, fs).plot_psd, 4096, None, 2, None), 'Signal.plot_psd')
        pair(lines(Signal(X, fs).plot_fractal), lines(Signal(X, fs).plot_fractal, 2, (0.01, 2), 4096, None),
             'Signal.plot_fractal')
    elif k == 'wavelet':
        d = dict(p_exp=None, wt_name='db3', j1=1, j2=10, gamint=0., normalization=1, weighted=True)
        for kw in (dict(), dict(p_exp=2), dict(p_exp=np.inf), dict(p_exp=2, j2=5)):
            u, v = wavelet_analysis(X, **kw), wavelet_analysis(X, **dict(d, **kw))
            check(u.j2_eff == v.j2_eff, f'j2_eff {u.j2_eff}, {v.j2_eff}')
            pair((u.wt_coefs.values[1], np.array(list(u.wt_coefs.nj))), (v.wt_coefs.values[1], np.array(list(v.wt_coefs.nj))),
                 'wavelet_analysis')
            pair(u.wt_coefs.values[3], v.wt_coefs.values[3], 'wavelet_analysis')
            if kw.get('p_exp') == 2:
                pair(u.eta_p, v.eta_p, 'wavelet_analysis')
    elif k == 'mfa':
        d = dict(normalization=1, gamint=0., weighted=True, wt_name='db3', p_exp=None)
        a, b = flat(mf_analysis_full(X, 2, 6)), flat(mf_analysis_full(X, 2, 6, q=[2], n_cumul=3, minimal=False, **d))
        same(a, b, 'mf_analysis_full', **T)
        Y = X[::-1] + rng.standard_normal(n)
        u, v = (bivariate_analysis_full(X, Y, 2, 6),
                bivariate_analysis_full(X, Y, 2, 6, q1=[0, 1, 2], q2=[0, 1, 2], n_cumul=3, **d))
        check(u.lwt is None and v.lwt is None, 'leaders without having been requested')
        pair((u.dwt.structure.zeta, u.dwt.cumulants.log_cumulants), (v.dwt.structure.zeta, v.dwt.cumulants.log_cumulants),
             'bivariate_analysis_full')
        W = wavelet_analysis(X, j2=6)
        pair(estimate_hmin(W.wt_coefs, 2, 6, True), estimate_hmin(W.wt_coefs, 2, 6, True, warn=True, return_y=False),
             'estimate_hmin')
        o = v.dwt.cumulants
        h, L = o.compute_legendre()
        h2, L2 = o.compute_legendre((0, 1.5), 100)
        pair((h, L), (h2, L2), 'compute_legendre')
        close(h, np.linspace(0, 1.5, 100), 'support of the bivariate spectrum', rtol=1e-12)
    else:
        m = min(n, 500)
        kw = dict(sigma=1, dt=None, method='cme', z0=None)
        for shape in (m, (m, 2)):
            pair(seeded(simul.fgn, shape, 0.7), seeded(simul.fgn, shape, 0.7, **kw), 'fgn')
            pair(seeded(simul.fgn, shape, 0.7), seeded(simul.fgn, shape, 0.7, dt=1 / m), 'fgn dt')
            pair(seeded(simul.fbm, shape, 0.7), seeded(simul.fbm, shape, 0.7, **kw), 'fbm')
            pair(seeded(simul.mrw, shape, 0.7, 0.3, m), seeded(simul.mrw, shape, 0.7, 0.3, m, sigma=1, method='cme',
                                                                z0=(None, None)), 'mrw')
            pair(seeded(simul.mrw_cumul, shape, 0.7, -0.05, m), seeded(simul.mrw_cumul, shape, 0.7, -0.05, m, sigma=1,
                                                                        method='cme'), 'mrw_cumul')
            pair(seeded(M.skewed_mrw, shape, 0.7, 0.3, m), seeded(M.skewed_mrw, shape, 0.7, 0.3, m, K0=1, alpha=1, sigma=1,
                                                                   dt=1, beta=1, do_mirror=False), 'skewed_mrw')
        pair(seeded(M.mrw2D, (20, 1), 0.7, 0.3, 20), seeded(M.mrw2D, (20, 1), 0.7, 0.3, 20, sigma=1), 'mrw2D')
        z = rng.standard_normal((40, 2))
        pair(M.skewness_convolution(z, 0.5, 0.7), M.skewness_convolution(z, 0.5, 0.7, 1, 1), 'skewness_convolution')
    rec.tag(k)
    rec.good(True)


def from_dict(c, rec):
    """Objects made from a dictionary ignore what they do not need and equal the direct ones."""
    m = c['m']
    M = gen.make_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    q = np.array(c['q'])
    d = dict(mrq=M, q=q, n_cumul=c['n_cumul'], j1=j1, j2=j2, weighted=c['weighted'], extra=3, wt_name='x',
             normalization=1, p_exp=2)
    if c['order']:
        d = dict(reversed(list(d.items())))
    before = dict(d)
    P = _parts(M, j1, j2, c, q)
    for cls, part in ((StructureFunction, 'structure'), (Cumulants, 'cumulants'), (MultifractalSpectrum, 'spectrum')):
        o = cls.from_dict(d)
        check(isinstance(o, cls), f'{part} of another type')
        for f in FIELDS[part]:
            v = getattr(o, f)
            if v is not None or (part, f) in P:
                close(v, P[part, f], f'{part} {f}', **T)
    check(set(d) == set(before) and all(d[k] is before[k] for k in d), 'the dictionary was changed')
    N = type(M).from_dict(dict(formalism=m['formalism'], gamint=m['gamint'], other=1))
    check(N.formalism == m['formalism'] and N.gamint == m['gamint'] and not N.values, 'empty quantity')
    rec.good(True)


def bivariate(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    X = s.X if s.X.ndim == 1 else s.X[:, :1]
    Y = gen.build(dict(c['sig'], R=0, seed=c['seed2'], kind=c['kind2']))
    if c['near']:            # nearly the same signal is not the same
        Y = np.ravel(X) + c['near'] * np.abs(X).max() * np.random.RandomState(c['seed2']).standard_normal(len(X))
    kw = dict(normalization=c['norm'], gamint=c['gamint'], weighted=c['weighted'], wt_name=c['wt'], p_exp=s.p)
    qs = None if c['noq'] else (list(c['q']) if c['aslist'] else np.array(c['q']))
    F = bivariate_analysis_full(X, Y, s.j1, s.j2, q1=qs, q2=qs, n_cumul=c['n_cumul'], **kw)
    WX, WY = s.wavelet(X), s.wavelet(Y)
    G = bivariate_analysis(WX, WY, s.j1, c['weighted'], c['n_cumul'], qs, qs)
    from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
    from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
    q = np.array([0., 1., 2.] if qs is None else c['q'])
    for side, a, b in (('dwt', WX.wt_coefs, WY.wt_coefs), ('lwt', WX.wt_leaders, WY.wt_leaders)):
        f, g = getattr(F, side), getattr(G, side)
        check((f is None) == (g is None) == (a is None), f'{side} for p_exp={s.p}')
        if a is None:
            continue
        sf = BiStructureFunction(a, b, s.j1, s.j2, q, q, c['weighted'])
        cm = BiCumulants(a, b, c['n_cumul'], s.j1, s.j2, c['weighted'])
        for o in (f, g):
            for n in ('logvalues', 'zeta'):
                close(getattr(o.structure, n), getattr(sf, n), f'{side} {n}', **T)
            check((o.structure.coherence is None) == (sf.coherence is None), 'coherence')
            if sf.coherence is not None:
                close(o.structure.coherence, sf.coherence, f'{side} coherence', **T)
            for n in ('values', 'log_cumulants'):
                close(getattr(o.cumulants, n), getattr(cm, n), f'{side} {n}', **T)
            check((o.cumulants.rho_mf is None) == (cm.rho_mf is None), 'rho_mf')
            check(o.structure.formalism == a.formalism and o.cumulants.formalism == a.formalism, 'formalism')
    if s.p is not None:
        # leaders of one signal only: nothing to pair them with
        WC = s.wavelet(X, p_exp=None)
        for a, b in ((WC, WY), (WX, s.wavelet(Y, p_exp=None))):
            G = bivariate_analysis(a, b, s.j1, c['weighted'], c['n_cumul'], qs, qs)
            check(G.lwt is None, 'bivariate leaders though one signal has none')
            close(G.dwt.structure.zeta, F.dwt.structure.zeta, 'leaders of one signal only', **T)
    # other exponents for the second signal, other upper scales
    q2 = [1., 0.] if qs is None else (np.array([0.5, 2.]) if c['aslist'] else [0.5, 2., 1.])
    G = bivariate_analysis(WX, WY, s.j1, c['weighted'], c['n_cumul'], qs, q2)
    H = BiStructureFunction(WX.wt_coefs, WY.wt_coefs, s.j1, s.j2, q, np.array(q2), c['weighted'])
    close(G.dwt.structure.zeta, H.zeta, 'one set of exponents for each signal', **T)
    if s.j2 - s.j1 >= 2:
        short = s.wavelet(Y, j2=s.j2 - 1)
        for a, b in ((WX, short), (s.wavelet(X, j2=s.j2 - 1), WY)):
            G = bivariate_analysis(a, b, s.j1, c['weighted'], c['n_cumul'], qs, qs)
            H = BiStructureFunction(WX.wt_coefs, WY.wt_coefs, s.j1, s.j2 - 1, q, q, c['weighted'])
            close(G.dwt.structure.zeta, H.zeta, 'smallest of the upper scales', **T)
    rec.tag(str(c['p']), 'no q' if qs is None else 'q')
    rec.good(True)


CHECKS = [
    Sub('compose', fd(aslist=st.booleans(), **analysis()), compose, 1000,
        rule='one call against its parts; non-trivial: leaders, or exponents given as a list'),
    Sub('minimal', fd(aslist=st.booleans(), noq=st.booleans(), **analysis()), minimal, 600,
        rule='minimal analysis against the full one, with and without exponents'),
    Sub('defaults', fd(sig=gen.signals(n_min=100, n_max=3000), leaders=st.booleans()), defaults, 300,
        rule='omitted against explicit arguments'),
    Sub('options', fd(what=st.sampled_from(['welch', 'wavelet psd', 'slope', 'plots', 'wavelet', 'wavelet', 'mfa', 'simul']),
                      n=st.sampled_from([5000, 8192, 16000, 20001]), seed=gen.SEED, fs=st.sampled_from([1., 2., 10., 250.])),
        options, 128, rule='each optional argument left out against its documented default; every case'),
    Sub('from_dict', fd(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED, order=st.booleans(),
                        n_cumul=st.integers(1, 7), q=gen.q_lists()), from_dict, 600, rule='dictionaries with extra keys'),
    Sub('bivariate', fd(aslist=st.booleans(), noq=st.booleans(), seed2=gen.SEED, near=st.sampled_from([0, 0, 0, 1e-4, 1e-7]), kind2=st.sampled_from(gen.KINDS),
                        **analysis(q=gen.q_lists(neg=False))), bivariate, 480,
        rule='bivariate analysis in one call, from transforms, and part by part'),
]
ASSUMPTIONS = ['finite signals']
