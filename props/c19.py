"""C19 - power spectral densities: Welch's averaged periodograms and the wavelet estimate."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import fd, two

from pymultifracs.psd import wavelet_estimation, welch_estimation
from pymultifracs.wavelet import wavelet_analysis

FS = st.one_of(st.sampled_from([1., 2., 10., 250., 1000., 0.5, 5000., 44100., 1e-3]), gen.f(0.1, 500.))


def welch_ref(x, fs, n_fft, seg):
    seg = n_fft if seg is None else seg
    n_fft = max(n_fft, seg)
    k = np.arange(seg)
    win = 0.54 - 0.46 * np.cos(2 * np.pi * k / seg)
    step = seg - seg // 2
    P, cnt = 0., 0
    for a in range(0, len(x) - seg + 1, step):
        y = np.zeros(n_fft)
        y[:seg] = x[a:a + seg] * win
        F = np.exp(-2j * np.pi * np.outer(np.arange(n_fft // 2 + 1), np.arange(seg)) / n_fft) @ y[:seg]
        P = P + np.abs(F) ** 2
        cnt += 1
    P = P / cnt / (2 * np.pi * (win ** 2).sum())
    P[1:] *= 2                      # energy of the negative frequencies ...
    if n_fft % 2 == 0:
        P[-1] /= 2                  # ... which the last bin of an even transform does not have
    return fs * np.arange(n_fft // 2 + 1) / n_fft, 4 * P


def welch(c, rec):
    x = np.ravel(gen.build(dict(c['sig'], R=0)))
    n_fft = 4 + int(c['a'] * (min(len(x), 200) - 4))
    seg = None if c['seg'] is None else 4 + int(c['seg'] * (min(len(x), 200) - 4))
    if x.dtype == np.float64:      # the mean is kept: it is the null frequency
        x = x + c['offset'] * np.abs(x).max()
    freq, psd = welch_estimation(x, c['fs'], n_fft, seg)
    F, P = welch_ref(np.asarray(x, dtype=float), c['fs'], n_fft, seg)
    close(freq, F, f'frequencies, n_fft={n_fft}, seg={seg}', rtol=1e-10)
    close(psd, P, f'Welch PSD, n_fft={n_fft}, seg={seg}', rtol=1e-6 if c['sig'].get('layout') != 'f4' else 1e-3,
          atol=(1e-10 if c['sig'].get('layout') != 'f4' else 1e-4) * P.max())
    rec.tag('odd' if max(n_fft, seg or 0) % 2 else 'even', 'seg=None' if seg is None else 'seg>n_fft' if seg > n_fft else
            'seg<=n_fft', 'one segment' if len(x) < 1.5 * (seg or n_fft) else 'several')
    rec.good(seg is not None)


def welch_laws(c, rec):
    """Amplitude squared; the sampling frequency only labels the axis; defaults."""
    x = np.ravel(gen.build(dict(c['sig'], R=0, layout='C')))
    n_fft = 4 + int(c['a'] * (min(len(x), 300) - 4))
    f, p = welch_estimation(x, c['fs'], n_fft)
    g, s = welch_estimation(c['g'] * x, c['fs'], n_fft)
    close(s, c['g'] ** 2 * p, f'PSD of {c["g"]} X', rtol=1e-9, atol=1e-13 * p.max() * c['g'] ** 2)
    f2, p2 = welch_estimation(x, 3 * c['fs'], n_fft)
    close(f2, 3 * f, 'frequencies at 3 fs', rtol=1e-10)
    close(p2, p, 'PSD at 3 fs', rtol=1e-10)
    f3, p3 = welch_estimation(x, c['fs'], n_fft, n_fft)
    close(p3, p, 'segments of the length of the transform', rtol=1e-10)
    check((p >= 0).all() and f[0] == 0 and (np.diff(f) > 0).all() and f[-1] <= c['fs'] / 2 * (1 + 1e-12), 'axis')
    if c['long']:
        y = np.tile(x, 1 + 5000 // len(x))
        f4, p4 = welch_estimation(y, c['fs'])
        check(len(f4) == len(p4) == 2049, f'default n_fft gives {len(f4)} frequencies')
        close(f4[1], c['fs'] / 4096, 'default resolution', rtol=1e-9)
        close(p4, welch_estimation(y, c['fs'], 4096, 4096)[1], 'default arguments', rtol=1e-10)
    rec.good(True)


def sine(c, rec):
    """A sinusoid peaks at its frequency, in both axes."""
    n_fft = c['n']
    k = 3 + int(c['a'] * (n_fft // 2 - 6))
    t = np.arange(4 * n_fft)
    x = np.sin(2 * np.pi * k * t / n_fft + c['phase'])
    f, p = welch_estimation(x, c['fs'], n_fft)
    check(abs(f[np.argmax(p)] - k * c['fs'] / n_fft) < 1e-9 * c['fs'], f'peak at {f[np.argmax(p)]}, not {k * c["fs"] / n_fft}')
    rec.good(True)


def wavelet(c, rec):
    X = gen.build(c['sig'])
    N = c['nm']
    J = ref.n_scales(len(X), 2 * N, False)
    if J < 1:
        return
    if c['gaps']:
        X = gen.punch(X, c['gaps'])
        J = len(ref.coefs(X, f'db{N}'))
        if J < 1:
            return
    freq, psd = wavelet_estimation(X, c['fs'], N, j2=c['j2'])
    cf = ref.coefs(two(X), f'db{N}', 1, 0.5)
    check(len(cf) == J, 'model')
    exp = np.array([ref.mean_usable(cf[j] ** 2) for j in cf])
    close(freq, [0.75 * c['fs'] / 2. ** j for j in cf], 'frequencies of the scales', rtol=1e-10)
    m = gen.top(X)
    tol = np.array([1e-11 * m * 4. ** j for j in cf])[:, None]
    close(np.sqrt(psd), np.sqrt(exp), f'wavelet PSD with db{N}', rtol=1e-6, atol=tol.max())
    W = wavelet_analysis(X, wt_name=f'db{N}', j1=1, j2=None, gamint=0.5, normalization=1)
    close(psd, [np.nanmean(v ** 2, axis=0) for v in W.wt_coefs.values.values()], 'mean square of the coefficients', rtol=1e-9)
    g = c['g']
    close(np.sqrt(wavelet_estimation(np.asarray(X, dtype=float) * g, c['fs'], N).psd), abs(g) * np.sqrt(exp), f'PSD of {g} X', rtol=1e-6,
          atol=abs(g) * tol.max())
    rec.tag(f'db{N}', f'J={J}', f'R={c["sig"]["R"]}', 'missing samples' if c['gaps'] else 'complete')
    rec.good(J >= 2)


def agree(c, rec):
    """Fourier and wavelet estimates of coloured noise agree up to a factor (same slope)."""
    rng = np.random.RandomState(c['seed'])
    n = 2 ** 13
    k = np.arange(1, n // 2 + 1)
    amp = k ** (-c['beta'] / 2.)
    Z = np.concatenate([[0], amp * np.exp(2j * np.pi * rng.rand(len(k)))])
    x = np.fft.irfft(Z, n)
    f, p = welch_estimation(x, 1., 1024)
    g, w = wavelet_estimation(x, 1., 4)
    b = (f > 0.01) & (f < 0.2)
    s1 = np.polyfit(np.log2(f[b]), np.log2(p[b]), 1)[0]
    b = (g > 0.01) & (g < 0.2)
    s2 = np.polyfit(np.log2(g[b]), np.log2(w[b, 0]), 1)[0]
    check(abs(s1 + c['beta']) < 0.25 and abs(s2 + c['beta']) < 0.45, f'slopes {s1:.2f} (Welch) and {s2:.2f} (wavelet) for f^-{c["beta"]}')
    mid = np.interp(0.05, f, p) / np.interp(0.05, g[::-1], w[::-1, 0])
    check(0.1 < mid < 10, f'Welch over wavelet at f = 0.05: {mid}')
    rec.good(c['beta'] > 0)


CHECKS = [
    Sub('welch', fd(sig=gen.signals(n_max=600, huge=12000), fs=FS, a=gen.FRAC, seg=st.one_of(st.none(), gen.FRAC), offset=st.sampled_from([0., 0., 0., 3., -1e5])), welch, 2500,
        rule='signal x fs x transform length x segment length against averaged windowed transforms; '
             'non-trivial: segment length given'),
    Sub('welch_laws', fd(sig=gen.signals(n_max=600), fs=FS, a=gen.FRAC, g=st.sampled_from([-1., 2., 0.1, 1e4]),
                         long=st.booleans()), welch_laws, 1000, rule='amplitude, sampling frequency, defaults'),
    Sub('sine', fd(n=st.sampled_from([32, 64, 65, 100, 127, 256]), a=gen.FRAC, fs=FS, phase=gen.f(0, 6)), sine, 750,
        rule='peak of a sinusoid'),
    Sub('wavelet', fd(sig=gen.signals(big=4000), fs=FS, nm=gen.rare(st.integers(1, 8), st.integers(9, 15), 8), j2=st.sampled_from([None, None, 3, 20]),
                      gaps=st.one_of(st.just([]), gen.GAPS),
                      g=st.sampled_from([-1., 2., 0.1, 1e4])), wavelet, 2000,
        rule='signal x moments against the mean square of model coefficients; non-trivial: at least 2 scales'),
    Sub('agree', fd(seed=gen.SEED, beta=gen.f(0., 2.)), agree, 400,
        rule='both estimators on power-law spectra; non-trivial: beta > 0'),
]
ASSUMPTIONS = ['signals at least as long as one Welch segment']
