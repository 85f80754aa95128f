"""C06 - polynomial trends below the number of vanishing moments are invisible."""
import functools
import numpy as np
import pywt
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd, flat, same, two


@functools.lru_cache(maxsize=None)
def moments(wt):
    """Number of moments of the analysis wavelet that vanish, counted on its taps."""
    h = np.array(pywt.Wavelet(wt).dec_hi)
    k = np.arange(len(h)) - (len(h) - 1) / 2.
    n = 0
    while abs((h * k ** n).sum()) <= 1e-7 * np.abs(h * k ** n).sum():
        n += 1
    return n


def trend(c, n, R):
    deg = int(c['deg'] * (moments(c['wt']) - 1) + 0.5)
    t = np.linspace(-1, 1, n)
    rng = np.random.RandomState(c['seed2'])
    co = rng.uniform(-1, 1, (deg + 1, R))
    P = sum(co[i] * t[:, None] ** i for i in range(deg + 1))
    return P, deg


def coefs(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    X = two(np.array(s.X, dtype=float))
    P, deg = trend(c, len(X), X.shape[1])
    P = P * (gen.top(X) * c['size'])
    W, V = s.wavelet(X), s.wavelet(X + P)
    res = ref.coefs(P, c['wt'], c['norm'], c['gamint'])     # what the filter taps leave of it
    m = gen.top(X) + np.abs(P).max()
    for name in ('wt_coefs', 'wt_leaders'):
        a, b = getattr(W, name), getattr(V, name)
        if a is None or name == 'wt_leaders' and s.p is not None and not np.isinf(s.p):
            continue
        check(list(a.values) == list(b.values), 'the scales depend on the values')
        worst = 0.
        for j in a.values:
            left = np.nanmax(np.abs(res[j])) if j in res else 0.
            worst = max(worst, left + 1e-11 * m * 4. ** j * 2. ** (j * (0.5 - 1 / c['norm'] + c['gamint'])))
            close(b.values[j], a.values[j], f'{name}, scale {j}, trend of degree {deg} ({c["wt"]})',
                  rtol=1e-7, atol=2 * worst)
    rec.tag(c['wt'], f'degree {deg}', f'x{c["size"]}')
    rec.good(deg >= 1 or c['size'] > 1)


def estimates(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    X = two(np.array(s.X, dtype=float))
    P, deg = trend(c, len(X), X.shape[1])
    W = s.wavelet(X)
    if not s.conditioned(W, 1e-5):
        return
    # as large as the residue of the taps and rounding allow
    res = ref.coefs(P, c['wt'], c['norm'], c['gamint'])
    rel = max((np.nanmax(np.abs(res[j])) + 1e-15 * 4. ** j * 2. ** (j * (0.5 - 1 / c['norm'] + c['gamint'])))
              / np.nanmin(np.abs(W.wt_coefs.values[j])) for j in W.wt_coefs.values)
    size = min(1e-8 / rel, 1e6 * gen.top(X))
    V = s.wavelet(X + size * P)
    if W.eta_p is not None and (np.abs(W.eta_p) < 1e-4).any():
        return
    same(flat(s.mfa(W)), flat(s.mfa(V)), f'trend of degree {deg}, size {size:.3g} ({c["wt"]})',
         rtol=1e-4, atol=1e-4)
    ratio = size / np.std(X)
    rec.tag(c['wt'], 'small' if ratio < .1 else 'comparable' if ratio < 10 else 'dominant')
    rec.good(ratio > 0.1)


def psd(c, rec):
    """The wavelet estimate of the spectrum ignores trends below its number of moments."""
    from pymultifracs.psd import wavelet_estimation
    N = c['nm']
    X = two(np.array(gen.build(c['sig']), dtype=float))
    if ref.n_scales(len(X), 2 * N, False) < 1:
        return
    P, deg = trend(dict(c, wt=f'db{N}'), len(X), X.shape[1])
    P = P * np.std(X) * c['size']
    res = ref.coefs(P, f'db{N}', 1, 0.5)
    a, b = wavelet_estimation(X, 10., N), wavelet_estimation(X + P, 10., N)
    for i, j in enumerate(range(1, len(a.psd) + 1)):
        tol = np.nanmax(np.abs(res[j])) + 1e-12 * (gen.top(X) + np.abs(P).max()) * 4. ** j
        close(np.sqrt(b.psd[i]), np.sqrt(a.psd[i]), f'scale {j}, db{N}, degree {deg}', rtol=1e-6, atol=2 * tol)
    rec.tag(f'db{N}', f'degree {deg}')
    rec.good(c['size'] >= 1)


T = dict(deg=gen.FRAC, seed2=gen.SEED)
CHECKS = [
    Sub('coefs', fd(size=st.sampled_from([0.1, 1., 30., 1e3, 1e5]), **T, **analysis()), coefs, 800,
        rule='signal with and without a polynomial; non-trivial: degree >= 1 or dominant trend'),
    Sub('estimates', fd(**T, **analysis(ints=False)), estimates, 1000,
        rule='complete analysis with and without a polynomial as large as rounding allows; '
             'non-trivial: trend above 0.1 standard deviation'),
    Sub('psd', fd(sig=gen.signals(), nm=st.integers(1, 6), size=st.sampled_from([0.1, 1., 30., 1e3]), **T), psd, 600,
        rule='wavelet PSD with and without a polynomial; non-trivial: trend at least as large as the signal'),
]
ASSUMPTIONS = ['vanishing moments are counted on the filter taps; the residue of inexact taps is allowed for']
