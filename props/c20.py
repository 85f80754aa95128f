"""C20 - spectral slope: least-squares line through log PSD over the requested band."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import fd

from pymultifracs.fractal_analysis import estimate_beta, fractal_analysis
from pymultifracs.psd import wavelet_estimation

LOG = {'log2': np.log2, 'log': np.log}


def _spectrum(c):
    rng = np.random.RandomState(c['seed'])
    n = min(c['n'], 60) if c['grid'] == 'oct' else c['n']
    freq = {'lin': 0.1 * np.arange(n), 'oct': 64. * 2. ** -np.arange(n), 'rand': np.sort(rng.uniform(0.01, 50., n)),
            'desc': 0.2 * np.arange(n, 0, -1.)}[c['grid']]
    f1 = np.where(freq > 0, freq, 1.)
    psd = c['C'] * f1 ** c['slope'] * np.exp(c['noise'] * rng.standard_normal(n))
    pos = np.sort(freq[freq > 0])
    i = int(c['lo'] * (len(pos) - 2))
    k = min(i + 1 + int(c['w'] * (len(pos) - 1)), len(pos) - 1)
    band = (pos[i], pos[k])          # limits included
    if c['zero'] and freq.min() == 0 and i == 0:
        band = (0., pos[k])
    return freq, psd, band


def fit(c, rec):
    freq, psd, band = _spectrum(c)
    f0, p0 = freq.copy(), psd.copy()
    log = LOG[c['log']]
    shaped = psd[:, None] if c['col'] else psd
    r = estimate_beta(freq, shaped, band, c['log'])
    use = (freq >= band[0]) & (freq <= band[1]) & (freq > 0)
    x, y = log(freq[use]), log(psd[use])
    A = np.stack([x - x.mean(), np.ones_like(x)], axis=1)
    s, t = np.linalg.lstsq(A, y, rcond=None)[0]
    close(np.ravel(r.freq), x, 'log-frequencies of the fit', rtol=1e-10, atol=1e-12)
    close(np.ravel(r.beta), [s], 'slope', rtol=1e-7, atol=1e-7)
    close(np.ravel(r.log_C), [t - s * x.mean()], 'intercept', rtol=1e-6, atol=1e-6)
    check(np.array_equal(freq, f0) and np.array_equal(psd, p0), 'arguments modified')
    if c['noise'] == 0:
        close(np.ravel(r.beta), [c['slope']], 'slope of an exact power law', atol=1e-7)
        close(np.ravel(r.log_C), [log(c['C'])], 'intercept of an exact power law', atol=1e-6)
    rec.tag(c['grid'], c['log'], 'band from 0' if band[0] == 0 else 'band', f'{min(use.sum(), 10)} points')
    rec.good(use.sum() >= 3 and use.sum() < len(freq))


def band(c, rec):
    """Values outside the band change nothing; the base of the logarithm does not change the slope."""
    freq, psd, b = _spectrum(c)
    rng = np.random.RandomState(c['seed'] ^ 1)
    out = (freq < b[0]) | (freq > b[1])
    other = np.where(out, psd * np.exp(3 * rng.standard_normal(len(psd))) + 1, psd)
    r, s = estimate_beta(freq, psd, b, c['log']), estimate_beta(freq, other, b, c['log'])
    for n in ('beta', 'log_C', 'freq'):
        close(getattr(s, n), getattr(r, n), f'{n} after changes outside the band', rtol=1e-9, atol=1e-10)
    u, v = estimate_beta(freq, psd, b, 'log2'), estimate_beta(freq, psd, b, 'log')
    close(u.beta, v.beta, 'slope in base 2 and e', rtol=1e-8, atol=1e-8)
    close(np.asarray(u.log_C) * np.log(2), v.log_C, 'intercept in base 2 and e', rtol=1e-7, atol=1e-7)
    o = rng.permutation(len(freq))
    w = estimate_beta(freq[o], psd[o], b, c['log'])
    close(w.beta, r.beta, 'slope after reordering', rtol=1e-7, atol=1e-7)
    g = estimate_beta(freq, 7 * psd, b, c['log'])
    close(g.beta, r.beta, 'slope of 7 PSD', rtol=1e-7, atol=1e-7)
    close(g.log_C, np.asarray(r.log_C) + LOG[c['log']](7), 'intercept of 7 PSD', rtol=1e-7, atol=1e-7)
    # a single frequency in the band: the line goes through it, and through nothing outside the band
    i = rng.randint(len(freq))
    if freq[i] > 0:
        h = estimate_beta(freq, psd, (freq[i], freq[i]), c['log'])
        close(np.ravel(h.freq), [LOG[c['log']](freq[i])], 'log-frequencies, one in the band', rtol=1e-10, atol=1e-12)
        line = np.ravel(h.beta * h.freq.ravel() + h.log_C)
        if not np.isnan(line).all():      # no line is determined
            close(line, [LOG[c['log']](psd[i])], 'line through one point', rtol=1e-7, atol=1e-7)
    rec.good(out.any())


def composed(c, rec):
    X = gen.build(dict(c['sig'], R=min(1, c['sig']['R'])))
    N, fs = c['nm'], c['fs']
    J = ref.n_scales(len(X), 2 * N, False)
    if J < 2:
        return
    w = wavelet_estimation(X, fs, N)
    if not (w.psd > 1e-24 * gen.top(X) ** 2).all():
        return
    b = (0.7 * fs * 2. ** -J, fs * 2. ** -1) if c['all'] else (0.74 * fs * 2. ** -min(J, 3), 0.76 * fs * 2. ** -1)
    r = fractal_analysis(X, fs, N, b, c['log'])
    e = estimate_beta(w.freq, w.psd, b, c['log'])
    for n in ('beta', 'log_C', 'freq'):
        close(getattr(r, n), getattr(e, n), n, rtol=1e-8, atol=1e-8)
    d = fractal_analysis(X, fs, freq_band=b)
    w2 = wavelet_estimation(X, fs, 2)
    e = estimate_beta(w2.freq, w2.psd, b, 'log2')
    close(d.beta, e.beta, 'default arguments', rtol=1e-8, atol=1e-8)
    x, y = LOG[c['log']](w.freq), LOG[c['log']](w.psd[:, 0])
    use = (w.freq >= b[0]) & (w.freq <= b[1])
    close(np.ravel(r.beta), [np.polyfit(x[use], y[use], 1)[0]], 'slope', rtol=1e-6, atol=1e-6)
    rec.tag(f'db{N}', c['log'])
    rec.good(use.sum() >= 3)


S = dict(seed=gen.SEED, n=gen.rare(st.integers(4, 60), st.integers(60, 3000)), grid=st.sampled_from(['lin', 'oct', 'rand', 'desc']), slope=gen.f(-4, 3),
         C=gen.f(0.01, 100), noise=st.sampled_from([0., 0.5, 2.]),
         lo=st.one_of(gen.FRAC, gen.FRAC, st.just(0.)), w=st.one_of(gen.FRAC, gen.FRAC, st.just(1.)), zero=st.booleans(),
         col=st.booleans(), log=st.sampled_from(['log2', 'log']))
CHECKS = [
    Sub('fit', fd(**S), fit, 4000, rule='spectra x bands against lstsq; non-trivial: at least 3 points in a band smaller than the axis'),
    Sub('band', fd(**S), band, 1500, rule='changes outside the band, base, order, factor; non-trivial: something outside'),
    Sub('composed', fd(sig=gen.signals(n_min=80), nm=st.integers(1, 9), fs=st.sampled_from([1., 10., 250.]), all=st.booleans(),
                       log=st.sampled_from(['log2', 'log'])), composed, 1000,
        rule='signal to slope against its parts; non-trivial: at least 3 scales in the band'),
]
ASSUMPTIONS = ['positive PSD, at least 2 frequencies in the band; the sign convention is that of the code '
               '(the slope itself), see DESIGN.md']
